CONSTANTS
  Steps = 5
  Lag = 3
  Plugins = 1
  MaxUndos <- Few
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Promised Mirrors Counted Groups Right
