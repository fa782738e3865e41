SPECIFICATION Spec
CONSTANT Kind = "settings"
VIEW View
INVARIANTS Names Levels Pools
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
