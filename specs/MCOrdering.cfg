SPECIFICATION Spec
CONSTANTS
  N = 4
  Emit = FALSE
  Explore = TRUE
INVARIANTS NoRepeats Complete Scenario
CHECK_DEADLOCK FALSE
