SPECIFICATION Spec
CONSTANTS
  N = 4
  Emit = TRUE
INVARIANTS InEnvelope Aligned Scenario
CHECK_DEADLOCK FALSE
