SPECIFICATION Spec
CONSTANTS
  N = 2
  Vals <- Seven
  Emit = TRUE
INVARIANTS KeepsSolution Triangular Decides ModularTest ZeroLines Scenario
CHECK_DEADLOCK FALSE
