SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Emit = TRUE
INVARIANTS Accumulates Prevails MeanOfTwo Scenario
PROPERTY Monotone
CHECK_DEADLOCK FALSE
