SPECIFICATION Spec
CONSTANTS Kind = "roll" Depth = 9
CONSTRAINT Shallow
INVARIANT Rolling
PROPERTIES Untouched Fits Appends Durable
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
