CONSTANTS
  Area = "save"
  MaxLen = 3
  Starts = {0}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
