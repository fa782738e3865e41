SPECIFICATION SimSpec
CONSTANTS
  Slots = {"a", "b", "c"}
  Sizes <- AllSizes
  Ids = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
  Depth = 80
  Mode = "sim"
CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE
