SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 5
  Texts <- TextsMore
  Cmds <- CmdsEdit
  Emit = FALSE
  MaxUndos <- Three
VIEW View
INVARIANTS SelectionWellFormed IdentitiesOnce HeadIsCurrent Bounded ThereAndBack PristineMeans MatchesExact
PROPERTIES PlayIsOneStep PlayIsTheCommands OnlyNearRegions OnlyEditsChange UndoWalks OtherRecordingsStay
