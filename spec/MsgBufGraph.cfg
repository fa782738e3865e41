SPECIFICATION Spec
CONSTANTS
  Slots = {"a", "b"}
  Sizes <- SmallSizes
  Ids = {1}
  Depth = 0
  Mode = "graph"
PROPERTY Independent
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
