SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 5
  Texts <- TextsWrap
  Cmds <- CmdsWrap
  Emit = FALSE
  MaxUndos <- Three
  Widths <- WidthsWrap
VIEW View
INVARIANTS SelectionWellFormed IdentitiesOnce HeadIsCurrent Bounded ThereAndBack PristineMeans MatchesExact LinesAreRight
PROPERTIES PlayIsOneStep PlayIsTheCommands OnlyNearRegions OnlyEditsChange UndoWalks OtherRecordingsStay
