SPECIFICATION Spec
CONSTANTS
  Corners = 6
  Side3 = 2
  Emit = TRUE
INVARIANTS NeverStuck Whole Area Unique Scenario
CHECK_DEADLOCK FALSE
