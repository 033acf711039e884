CONSTANTS
  Area = "cfg"
  MaxLen = 2
  Starts = {0, 1, 3}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
