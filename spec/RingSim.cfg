SPECIFICATION SimSpec
CONSTANTS
  Bufs = {"a", "b", "c"}
  Caps = {0, 1, 2, 3, 4, 5, 7, 8, 11, 16}
  Vals = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  MaxOver = 1
  Depth = 150
  Mode = "sim"
INVARIANTS Refines Bounded
CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE
