CONSTANTS
  MaxVer = 9
  MaxCmds = 8
  Checked = TRUE
  ByHandle = TRUE
  Known = TRUE
SPECIFICATION Spec
INVARIANTS NothingLost Honest
CHECK_DEADLOCK FALSE
