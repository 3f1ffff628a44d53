SPECIFICATION Spec
CONSTANTS
  G = 2
  Emit = TRUE
INVARIANTS Laws AnyListing Masses AxiLaws Scenario
CHECK_DEADLOCK FALSE
