SPECIFICATION Spec
CONSTANTS
  Reach = 18301
  D = 50
INVARIANT Emit
CHECK_DEADLOCK FALSE
