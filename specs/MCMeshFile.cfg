SPECIFICATION Spec
CONSTANTS Big = FALSE Emit = TRUE
INVARIANT ReadsBack NeverAnother Noticed WholeModel Scenario
PROPERTY Final
CHECK_DEADLOCK FALSE
