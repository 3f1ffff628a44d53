SPECIFICATION Spec
CONSTANTS Spoil = TRUE Emit = TRUE
INVARIANT AnyOrder LastCond NotHere LostLine Scenario
CHECK_DEADLOCK FALSE
