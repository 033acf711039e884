SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Start = 2
  Steps = 8
  Groups = {0, 1, 2, 3}
  Prios = {0, 1, 2}
  MaxLen = 10
  WithGc = FALSE
  WithImpl = FALSE
  Emit = TRUE
  Spread = 2
  Back = 9
VIEW View
INVARIANTS RestoreSame
