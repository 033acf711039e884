SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 16
  Texts <- TextsMore
  Cmds <- CmdsAll
  Emit = TRUE
VIEW View
INVARIANTS SelectionWellFormed
