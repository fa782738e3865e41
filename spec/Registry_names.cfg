SPECIFICATION Spec
CONSTANT Kind = "names"
VIEW View
INVARIANTS Names Levels Pools
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
