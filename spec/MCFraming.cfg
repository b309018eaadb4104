CONSTANTS
  Bytes = {0, 1, 2, 127, 128, 129, 255}
  MaxLen = 5
  Limits = {0, 1, 3, 128, 268435455}
SPECIFICATION Spec
INVARIANTS HintInside Exact Refused BadLen Total
PROPERTIES Final Needed NotPast
CHECK_DEADLOCK FALSE
