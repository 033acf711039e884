CONSTANTS
  Nulls = TRUE
  Fresh = TRUE
  MaxSteps = 7
SPECIFICATION Spec
INVARIANTS Faithful Precedence
CHECK_DEADLOCK FALSE
