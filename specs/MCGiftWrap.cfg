SPECIFICATION Spec
CONSTANTS
  Corners = 0
  Side3 = 0
  Emit = TRUE
INVARIANTS NeverStuck Whole Area Unique Scenario
CHECK_DEADLOCK FALSE
