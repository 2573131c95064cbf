SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Alphabet = {97, 37, 46, 44, 58, 48, 49, 95, 42, 43, 61, 34, 123, 125, 57344, 65534}
  Deep = TRUE
INVARIANTS Recognised Agrees Cuts
CHECK_DEADLOCK FALSE
