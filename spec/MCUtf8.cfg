CONSTANT MaxLen = 4
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
