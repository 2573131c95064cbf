SPECIFICATION Spec
CONSTANTS MaxLen = 5
  Alphabet = {97,58,47,63,35,64}
INVARIANTS KindsAgree SplitUnique AuthUnique
CHECK_DEADLOCK FALSE
