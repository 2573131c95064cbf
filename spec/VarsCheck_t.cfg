SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet = {97, 46, 44, 58, 49, 42, 43, 123, 125}
  Deep = FALSE
INVARIANTS Recognised Agrees Cuts
CHECK_DEADLOCK FALSE
