SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Start = 2
  Steps = 2
  Groups = {0, 1}
  Prios = {0, 1}
  MaxLen = 10
  WithGc = TRUE
  WithImpl = FALSE
  Emit = TRUE
  Spread = 2
  Back = 9
VIEW View
INVARIANTS RestoreSame
