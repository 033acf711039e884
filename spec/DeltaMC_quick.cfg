CONSTANTS
  N = 3
  MaxIns = 2
  MaxCount = 2
  Emit = FALSE
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
