CONSTANTS
  Area = "life"
  MaxLen = 3
  Starts = {0}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
