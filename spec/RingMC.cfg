SPECIFICATION Spec
CONSTANTS
  Bufs = {"a", "b"}
  Caps = {0, 1, 2, 3}
  Vals = {1, 2}
  MaxOver = 1
  Depth = 0
  Mode = "check"
INVARIANTS Refines Bounded
PROPERTY Independent
CONSTRAINT Small
VIEW View
CHECK_DEADLOCK FALSE
