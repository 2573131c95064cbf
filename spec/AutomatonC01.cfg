SPECIFICATION Spec
CONSTANT Rules <- RulesC01
INVARIANT Emit
CHECK_DEADLOCK FALSE
