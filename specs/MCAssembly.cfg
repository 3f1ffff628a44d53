SPECIFICATION Spec
CONSTANTS
  Len0 = 5
  Emit = TRUE
INVARIANTS IsSum Scenario
CHECK_DEADLOCK FALSE
