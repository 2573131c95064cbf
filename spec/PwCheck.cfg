SPECIFICATION PSpec
CONSTANTS
  MaxLen = 6
  Alphabet = {97, 47, 58, 64, 63, 91}
INVARIANTS PwFrame
CHECK_DEADLOCK FALSE
