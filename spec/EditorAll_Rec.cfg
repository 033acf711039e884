SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 3
  Texts <- TextsSmall
  Cmds <- CmdsRec
  Emit = TRUE
VIEW View
INVARIANTS SelectionWellFormed
