SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Slips = FALSE
  Subs = {"modal"}
INVARIANT Independent Distinct Kinds Scenario
CHECK_DEADLOCK FALSE
