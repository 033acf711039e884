SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Reps = 3
  MaxEdits = 3
  Steps = 7
  Prios = {1}
  Emit = FALSE
VIEW View
INVARIANTS Converge Exact Ordered
