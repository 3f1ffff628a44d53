SPECIFICATION Spec
CONSTANTS
  N = 5
  Emit = TRUE
INVARIANTS InEnvelope Aligned Scenario
CHECK_DEADLOCK FALSE
