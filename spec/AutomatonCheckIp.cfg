SPECIFICATION CSpec
CONSTANTS Rules <- RulesIp
  MaxLen = 9
  Alphabet = {58,49,46}
INVARIANT Agree
CHECK_DEADLOCK FALSE
