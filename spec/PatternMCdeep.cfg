SPECIFICATION Spec
CONSTANTS
  Alphabet = {"%", "-", "=", "3", "1", "!", "v", "x"}
  MaxLen = 5
  FirstDay = 106751
  LastDay = 106751
  Mode = "print"
INVARIANTS Calendar Sane Emit
CHECK_DEADLOCK FALSE
