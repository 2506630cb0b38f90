SPECIFICATION Spec
CONSTANTS
  Reach = 18301
  D = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
