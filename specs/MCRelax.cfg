SPECIFICATION Spec
CONSTANTS
  N = 3
  Off <- Offs
  Sweeps = 40
  Scale = 1000
INVARIANTS Settles
PROPERTIES Contracts
CHECK_DEADLOCK FALSE
