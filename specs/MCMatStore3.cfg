SPECIFICATION Spec
CONSTANTS
  N = 3
  Vals = {0, 2}
  Emit = TRUE
INVARIANTS TypeOK Laws Scenario
CHECK_DEADLOCK FALSE
