SPECIFICATION Spec
CONSTANTS MaxBase = 4
  MaxRef = 3
INVARIANTS Valid Compose Parts GuardExact Absolute Idem SameDoc
CHECK_DEADLOCK FALSE
