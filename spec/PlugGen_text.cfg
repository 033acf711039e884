CONSTANTS
  Area = "text"
  MaxLen = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
