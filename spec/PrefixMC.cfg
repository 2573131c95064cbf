SPECIFICATION Spec
CONSTANTS
  MaxUnits = 5
  MaxPrefix = 5
  Pieces_ = {65, 129, 227, 240, 159, 1000, 1002}
  Ops_ <- OpsMC
INVARIANT Prefixes
CHECK_DEADLOCK FALSE
