SPECIFICATION CSpec
CONSTANTS Rules <- RulesC01
  MaxLen = 5
  Alphabet = {97,58,47,63,35,64,37,52,91,93}
INVARIANT Agree
CHECK_DEADLOCK FALSE
