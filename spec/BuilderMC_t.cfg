SPECIFICATION Spec
INVARIANT Ok
CHECK_DEADLOCK FALSE
CONSTANTS
  Small = FALSE
  Emit = FALSE
