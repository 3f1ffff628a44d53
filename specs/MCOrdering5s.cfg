SPECIFICATION Spec
CONSTANTS
  N = 5
  Emit = TRUE
  Explore = FALSE
INVARIANTS NoRepeats Complete Scenario
CHECK_DEADLOCK FALSE
