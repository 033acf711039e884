CONSTANTS
  Area = "cfg"
  MaxLen = 3
  Starts = {0, 1}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
