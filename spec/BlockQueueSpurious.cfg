SPECIFICATION SpecS
CONSTANTS
  Threads = {1, 2}
  Cap = 1
  Ops = {"put", "take", "takefor", "try", "force"}
  Calls = 3
INVARIANTS Bounded NoLostWakeup Sets
PROPERTIES Refines
CHECK_DEADLOCK FALSE
