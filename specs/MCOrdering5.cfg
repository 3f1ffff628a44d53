SPECIFICATION Spec
CONSTANTS
  N = 5
  Emit = FALSE
  Explore = TRUE
INVARIANTS NoRepeats Complete Scenario
CHECK_DEADLOCK FALSE
