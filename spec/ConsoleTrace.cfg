SPECIFICATION Spec
CONSTANT ESC <- EscOf
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
