SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Slips = FALSE
  Subs = {"mesh"}
INVARIANT Independent Distinct Kinds Scenario
CHECK_DEADLOCK FALSE
