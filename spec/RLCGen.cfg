SPECIFICATION CSpec
CONSTANTS
  Reach = 18301
  D = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
