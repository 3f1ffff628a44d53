SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
INVARIANTS Symmetry Regularity Scenario
CHECK_DEADLOCK FALSE
