SPECIFICATION CSpec
CONSTANTS Rules <- RulesC01
  MaxLen = 4
  Alphabet = {97,58,47,63,35,64,37,52}
INVARIANT Agree
CHECK_DEADLOCK FALSE
