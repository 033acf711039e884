CONSTANTS
  Nulls = TRUE
  Fresh = TRUE
  MaxSteps = 5
SPECIFICATION Spec
INVARIANTS Faithful Precedence
CHECK_DEADLOCK FALSE
