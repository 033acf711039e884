SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Start = 1
  Steps = 6
  Groups = {1, 2}
  Prios = {1}
  MaxLen = 4
  WithGc = TRUE
  WithImpl = TRUE
  Emit = FALSE
  Spread = 1
  Back = 0
VIEW View
INVARIANTS ImplSame EditAtHead Rebased OthersStay GcSame RestoreSame
