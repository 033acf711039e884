CONSTANTS
  N = 3
  MaxIns = 2
  MaxCount = 2
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
