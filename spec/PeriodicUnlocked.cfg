SPECIFICATION Spec
CONSTANTS
  Runs = 3
  Locked = FALSE
INVARIANTS NoLostStop
CHECK_DEADLOCK FALSE
