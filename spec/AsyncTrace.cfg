SPECIFICATION Spec
CONSTRAINT Progress
INVARIANT Inv
POSTCONDITION Report
CHECK_DEADLOCK FALSE
