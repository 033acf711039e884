CONSTANTS
  Steps = 4
  Lag = 2
  Plugins = 1
  MaxUndos <- Few
  NoneInFlight <- Always
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Promised Mirrors Counted Groups Right
