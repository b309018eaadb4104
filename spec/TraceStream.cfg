SPECIFICATION TSpec
INVARIANTS Judged Sane Done
CHECK_DEADLOCK FALSE
