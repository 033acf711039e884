SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 2
  Texts <- TextsWrap
  Cmds <- CmdsWrap
  Emit = TRUE
  Widths <- WidthsWrap
VIEW View
INVARIANTS SelectionWellFormed
