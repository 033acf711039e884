SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 14
  Texts <- TextsMore
  Cmds <- CmdsEdit
  Emit = TRUE
VIEW View
INVARIANTS SelectionWellFormed
