SPECIFICATION Spec
CONSTANTS
  N = 2
  Vals = {0, 1, 3}
  Emit = TRUE
INVARIANTS TypeOK Laws Scenario
CHECK_DEADLOCK FALSE
