CONSTANTS
  Steps = 4
  Lag = 2
  Plugins = 2
  MaxUndos <- Few
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Promised Mirrors Counted Groups Right
