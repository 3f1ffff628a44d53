SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
INVARIANTS UnitT Energy Work Obeys Scenario
CHECK_DEADLOCK FALSE
