SPECIFICATION Spec
CONSTANT Rules <- RulesC15
INVARIANT Emit
CHECK_DEADLOCK FALSE
