SPECIFICATION SimSpec
CONSTANTS
  Slots = {"a", "b", "c"}
  Sizes <- FewSizes
  Ids = {1, 2, 3, 4, 6, 7, 11, 12, 13, 14}
  Depth = 80
  Mode = "sim"
CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE
