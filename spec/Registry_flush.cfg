SPECIFICATION Spec
CONSTANT Kind = "flush"
VIEW View
INVARIANTS Names Levels Pools
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
