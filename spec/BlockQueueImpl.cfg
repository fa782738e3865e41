SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Cap = 1
  Ops = {"put", "take", "takefor", "try", "force"}
  Calls = 2
INVARIANTS Bounded NoLostWakeup Sets
PROPERTIES Refines
CHECK_DEADLOCK FALSE
