SPECIFICATION Spec
CONSTANT Kind = "levels"
VIEW View
INVARIANTS Names Levels Pools
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
