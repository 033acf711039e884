SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Start = 2
  Steps = 3
  Groups = {0, 1, 2}
  Prios = {0, 1}
  MaxLen = 6
  WithGc = TRUE
  WithImpl = TRUE
  Emit = FALSE
  Spread = 1
  Back = 9
VIEW View
INVARIANTS ImplSame EditAtHead Rebased OthersStay GcSame RestoreSame
