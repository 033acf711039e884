SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 4
  Texts <- TextsSmall
  Cmds <- CmdsUndo
  Emit = TRUE
VIEW View
INVARIANTS SelectionWellFormed
