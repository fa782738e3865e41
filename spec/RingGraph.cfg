SPECIFICATION Spec
CONSTANTS
  Bufs = {"a", "b"}
  Caps = {0, 1, 2}
  Vals = {1}
  MaxOver = 1
  Depth = 0
  Mode = "graph"
INVARIANTS Refines Bounded
CONSTRAINT Small
ACTION_CONSTRAINT Emit
VIEW AView
CHECK_DEADLOCK FALSE
