CONSTANTS
  MaxVer = 6
  MaxCmds = 5
  Checked = TRUE
  ByHandle = TRUE
  Known = TRUE
SPECIFICATION Spec
INVARIANTS NothingLost Honest
CHECK_DEADLOCK FALSE
