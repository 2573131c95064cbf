SPECIFICATION CSpec
CONSTANTS Rules <- RulesReg
  MaxLen = 8
  Alphabet = {50,46,97,53}
INVARIANT Agree
CHECK_DEADLOCK FALSE
