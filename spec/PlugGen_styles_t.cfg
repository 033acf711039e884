CONSTANTS
  Area = "styles"
  MaxLen = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
