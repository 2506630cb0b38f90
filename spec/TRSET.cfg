SPECIFICATION Spec
CONSTANTS
  Most = 3
  Ns = {1, 2, 3}
  Is = {"position", "torque", "other"}
INVARIANT Claims
CHECK_DEADLOCK FALSE
