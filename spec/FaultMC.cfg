SPECIFICATION Spec
CONSTANTS MaxSteps = 2
  Emit = TRUE
INVARIANTS NeverTorn AlwaysValid RefusedUnchanged DoneAllowed
CHECK_DEADLOCK FALSE
