SPECIFICATION Spec
CONSTANTS
  Kind = 2
  Q = 1
  W = 2
  Producers = {1, 2}
  Calls = 2
  MayFlush = TRUE
  WaitPending = TRUE
  Steps <- StepsDef
INVARIANTS NotBad Bounded AtEnd
PROPERTY Ends
CHECK_DEADLOCK TRUE
