SPECIFICATION Spec
CONSTANT Rules <- RulesC02
INVARIANT Emit
CHECK_DEADLOCK FALSE
