SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Slips = FALSE
  Subs = {"linear"}
INVARIANT Independent Distinct Kinds Scenario
CHECK_DEADLOCK FALSE
