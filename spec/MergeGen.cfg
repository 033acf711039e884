SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Reps = 3
  MaxEdits = 6
  Steps = 11
  Prios = {0, 1}
  Emit = TRUE
VIEW View
INVARIANTS Converge Exact Ordered
