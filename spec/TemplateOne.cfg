SPECIFICATION Spec
INVARIANT Ok
CHECK_DEADLOCK FALSE
CONSTANTS
  Two = FALSE
  Emit = TRUE
  Caps = {1000, 0, 4}
