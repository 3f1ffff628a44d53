SPECIFICATION Spec
CONSTANT Emit = TRUE
INVARIANT NotUnderstood Scenario
CHECK_DEADLOCK FALSE
