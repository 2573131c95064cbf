SPECIFICATION Spec
INVARIANT Ok
CHECK_DEADLOCK FALSE
CONSTANTS
  Small = TRUE
  Emit = TRUE
