SPECIFICATION Spec
CONSTANTS
  MaxLoads = 3
  Emit = TRUE
INVARIANTS Resultant Superpose Scenario
CHECK_DEADLOCK FALSE
