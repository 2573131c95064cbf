SPECIFICATION Spec
INVARIANT Ok
CHECK_DEADLOCK FALSE
CONSTANTS
  Two = FALSE
  Emit = TRUE
  Caps = {1000, 0, 1, 2, 3, 5, 8, 13}
