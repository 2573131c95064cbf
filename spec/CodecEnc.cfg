SPECIFICATION Spec
INVARIANT Ok
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Mode = "enc"
  MaxRaw = 2
  MaxBytes = 0
  Emit = TRUE
