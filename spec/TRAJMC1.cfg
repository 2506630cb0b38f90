SPECIFICATION Spec
CONSTANTS
  NJ = 1
  N = 3
INVARIANTS VelOk AccOk AccOut PosOk NextOk BrakeOk Told Passed
CHECK_DEADLOCK FALSE
