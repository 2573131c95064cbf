SPECIFICATION Spec
CONSTANTS MaxSteps = 2
  Small = FALSE
  Emit = TRUE
VIEW View
INVARIANTS Valid NoPassword Masked UriAfterEnc OnlyThat
CHECK_DEADLOCK FALSE
