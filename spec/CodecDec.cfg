SPECIFICATION Spec
INVARIANT Ok
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Mode = "dec"
  MaxRaw = 0
  MaxBytes = 6
  Emit = TRUE
