SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
INVARIANTS TypeOK Laws Scenario
CHECK_DEADLOCK FALSE
