SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Alphabet = {127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111}
INVARIANTS SameOrder Total Readable
CHECK_DEADLOCK FALSE
