SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet = {97, 47, 58, 64, 63, 35, 37, 233, 983040}
INVARIANTS ToUriKind ToUriFixed ToUriSplit ToUriDecode
CHECK_DEADLOCK FALSE
