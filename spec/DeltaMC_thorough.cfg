CONSTANTS
  N = 4
  MaxIns = 3
  MaxCount = 2
  Emit = FALSE
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
