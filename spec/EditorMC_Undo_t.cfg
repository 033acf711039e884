SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 8
  Texts <- TextsSmall
  Cmds <- CmdsUndo
  Emit = FALSE
  MaxUndos <- Three
VIEW View
INVARIANTS SelectionWellFormed IdentitiesOnce HeadIsCurrent Bounded ThereAndBack PristineMeans MatchesExact
PROPERTIES PlayIsOneStep PlayIsTheCommands OnlyNearRegions OnlyEditsChange UndoWalks OtherRecordingsStay
