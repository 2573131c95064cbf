SPECIFICATION Spec
CONSTANTS MaxBase = 3
  MaxRef = 2
INVARIANTS Valid Compose Parts GuardExact Absolute Idem SameDoc
CHECK_DEADLOCK FALSE
