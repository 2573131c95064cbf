SPECIFICATION Spec
CONSTANTS
  MaxUnits = 4
  MaxPrefix = 5
  Pieces_ = {65, 128, 195, 224, 227, 237, 240, 244, 159, 1000, 1001, 1003}
  Ops_ <- OpsAll
INVARIANT Prefixes
CHECK_DEADLOCK FALSE
