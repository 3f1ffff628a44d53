SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Slips = TRUE
  Subs = {"linear", "modal", "mesh"}
INVARIANT Kinds Scenario
CHECK_DEADLOCK FALSE
