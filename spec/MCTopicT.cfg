CONSTANTS
  Alphabet = {97, 47, 43, 35, 36}
  MaxLen = 4
SPECIFICATION Spec
INVARIANTS ScanIsMatch SelfMatch HashIsAll Literal Parent PlusDeep ValidIsAuto
  CoverSound CoverFound CoverSelf CoverTrans CoverMulti
CHECK_DEADLOCK FALSE
