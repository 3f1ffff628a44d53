SPECIFICATION Spec
CONSTANT Emit = TRUE
INVARIANT Scenario
CHECK_DEADLOCK FALSE
