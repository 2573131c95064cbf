SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Alphabet = {0, 37, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 262143, 262144, 1114111}
INVARIANTS SameOrder Total Readable
CHECK_DEADLOCK FALSE
