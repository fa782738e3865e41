SPECIFICATION Spec
CONSTANTS
  Kind = 1
  Q = 2
  W = 2
  Producers = {1, 2}
  Calls = 1
  MayFlush = TRUE
  WaitPending = TRUE
  Steps <- StepsDef
INVARIANTS NotBad Bounded AtEnd
PROPERTY Ends
CHECK_DEADLOCK TRUE
