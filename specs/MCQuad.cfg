SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
INVARIANTS Direction Additive Powers Triangle Scenario
CHECK_DEADLOCK FALSE
