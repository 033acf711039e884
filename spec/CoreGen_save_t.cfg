CONSTANTS
  Area = "save"
  MaxLen = 4
  Starts = {0}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
