SPECIFICATION Spec
INVARIANT Ok
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxPieces = 3
  Emit = TRUE
