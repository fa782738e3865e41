SPECIFICATION Spec
CONSTANTS
  Kind = 1
  Q = 2
  W = 1
  Producers = {1, 2}
  Calls = 2
  MayFlush = TRUE
  WaitPending = TRUE
  Steps <- StepsDef
INVARIANTS NotBad Bounded AtEnd
PROPERTY Ends
CHECK_DEADLOCK TRUE
