SPECIFICATION CSpec
CONSTANTS Rules <- RulesC15
  MaxLen = 6
  Alphabet = {97,58,42,44,46,37,49,123,125,43}
INVARIANT Agree
CHECK_DEADLOCK FALSE
