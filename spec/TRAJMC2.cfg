SPECIFICATION Spec
CONSTANTS
  NJ = 2
  N = 2
INVARIANTS VelOk AccOk AccOut PosOk NextOk BrakeOk Told Passed
CHECK_DEADLOCK FALSE
