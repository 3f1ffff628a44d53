SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Emit = TRUE
INVARIANTS Closed Curves SameArea Simple Scenario
PROPERTIES TotalIsKept HeldIsKept
CHECK_DEADLOCK FALSE
