SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Start = 2
  Steps = 4
  Groups = {0, 1, 2}
  Prios = {1}
  MaxLen = 6
  WithGc = TRUE
  WithImpl = TRUE
  Emit = FALSE
  Spread = 1
  Back = 9
VIEW View
INVARIANTS ImplSame EditAtHead Rebased OthersStay GcSame RestoreSame
