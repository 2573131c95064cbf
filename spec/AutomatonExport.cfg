SPECIFICATION Spec
CONSTANT Rules <- RuleIds
INVARIANT Emit
CHECK_DEADLOCK FALSE
