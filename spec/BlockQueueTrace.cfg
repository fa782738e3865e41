SPECIFICATION Spec
CONSTRAINT Progress
INVARIANT Bounded
POSTCONDITION Report
CHECK_DEADLOCK FALSE
