SPECIFICATION Spec
CONSTANTS
  N = 3
  Vals <- Entries
  Emit = TRUE
INVARIANTS CountsNegative Invariant Monotone Scenario
CHECK_DEADLOCK FALSE
