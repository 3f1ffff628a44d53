CONSTANTS
  N = 2
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Out
CHECK_DEADLOCK FALSE
