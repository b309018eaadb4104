SPECIFICATION Spec
INVARIANTS OnlyWhereAllowed EndsExactly Codes CodeBack Export
CHECK_DEADLOCK FALSE
