SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Reps = 3
  MaxEdits = 4
  Steps = 8
  Prios = {1}
  Emit = FALSE
VIEW View
INVARIANTS Converge Exact Ordered
