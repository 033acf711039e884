CONSTANTS
  N = 4
  MaxIns = 2
  MaxCount = 1
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
