SPECIFICATION Spec
CONSTANTS MaxSteps = 3
  Emit = FALSE
INVARIANTS NeverTorn AlwaysValid RefusedUnchanged DoneAllowed
CHECK_DEADLOCK FALSE
