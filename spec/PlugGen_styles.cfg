CONSTANTS
  Area = "styles"
  MaxLen = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
