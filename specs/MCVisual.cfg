CONSTANTS
  L = 7
  N = 2
  D = 240
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Out
CHECK_DEADLOCK FALSE
