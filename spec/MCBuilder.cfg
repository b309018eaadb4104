CONSTANT MaxCalls = 3
SPECIFICATION Spec
INVARIANTS Sound Refusal Export
PROPERTIES Frame_
CHECK_DEADLOCK FALSE
