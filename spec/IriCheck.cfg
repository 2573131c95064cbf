SPECIFICATION Spec
CONSTANTS MaxLen = 4
  Alphabet = {97,58,47,63,35,64,37,49,91,93,46,57344,233}
INVARIANTS KindsAgree ComponentsAgree
CHECK_DEADLOCK FALSE
