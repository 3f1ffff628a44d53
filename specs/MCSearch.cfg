SPECIFICATION Spec
CONSTANTS
  Top = 10
  Count = 4
  Emit = TRUE
INVARIANTS RangesExact NoGap FoundRight NothingMissed Scenario
PROPERTIES Answers
CHECK_DEADLOCK FALSE
