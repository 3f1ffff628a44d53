SPECIFICATION Spec
CONSTANTS
  N = 3
  Vals <- Three
  Emit = TRUE
INVARIANTS KeepsSolution Triangular Decides ModularTest ZeroLines Scenario
CHECK_DEADLOCK FALSE
