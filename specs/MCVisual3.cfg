CONSTANTS
  L = 11
  N = 3
  D = 240
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Out
CHECK_DEADLOCK FALSE
