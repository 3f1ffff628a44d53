SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
INVARIANTS Rotation Ignored Positive Homogeneous Plane Axi Tensor Scenario
CHECK_DEADLOCK FALSE
