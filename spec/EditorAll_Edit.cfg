SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 2
  Texts <- TextsSmall
  Cmds <- CmdsEdit
  Emit = TRUE
VIEW View
INVARIANTS SelectionWellFormed
