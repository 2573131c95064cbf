SPECIFICATION Spec
INVARIANT Ok
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxPieces = 4
  Emit = TRUE
