SPECIFICATION Spec
INVARIANT Ok
CHECK_DEADLOCK FALSE
CONSTANTS
  Two = TRUE
  Emit = TRUE
  Caps = {1000, 0, 3, 6}
