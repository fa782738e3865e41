SPECIFICATION Spec
CONSTANTS
  Levels = {1, 2, 6}
  Sizes = {0, 1, 2}
VIEW View
INVARIANTS Filtering Dumping Bounded Newest
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
