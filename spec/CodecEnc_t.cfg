SPECIFICATION Spec
INVARIANT Ok
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Mode = "enc"
  MaxRaw = 3
  MaxBytes = 0
  Emit = TRUE
