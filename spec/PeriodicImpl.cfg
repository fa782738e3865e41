SPECIFICATION Spec
CONSTANTS
  Runs = 3
  Locked = TRUE
INVARIANTS Mutex OnlyWhenDue NoLostStop Prompt
PROPERTY Stops
CHECK_DEADLOCK TRUE
