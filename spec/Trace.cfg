SPECIFICATION Spec
INVARIANTS Judged Counted
POSTCONDITION AllVisited
CHECK_DEADLOCK FALSE
