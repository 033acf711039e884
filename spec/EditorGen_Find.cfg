SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 14
  Texts <- TextsMore
  Cmds <- CmdsFind
  Emit = TRUE
VIEW View
INVARIANTS SelectionWellFormed
