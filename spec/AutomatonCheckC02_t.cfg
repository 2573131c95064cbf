SPECIFICATION CSpec
CONSTANTS Rules <- RulesC02
  MaxLen = 5
  Alphabet = {97,58,47,64,37,52,91,93,46}
INVARIANT Agree
CHECK_DEADLOCK FALSE
