SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {97, 44, 58, 49, 42, 123, 125}
  Deep = FALSE
INVARIANTS Recognised Agrees Cuts
CHECK_DEADLOCK FALSE
