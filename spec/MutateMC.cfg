SPECIFICATION Spec
CONSTANTS MaxSteps = 3
  Small = TRUE
  Emit = TRUE
VIEW View
INVARIANTS Valid NoPassword Masked UriAfterEnc OnlyThat
CHECK_DEADLOCK FALSE
