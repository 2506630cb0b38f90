SPECIFICATION Spec
CONSTANTS
  Reach = 1
  Kind = "hard"
  N = 2
  Full = FALSE
  Dns = {1}
VIEW View
PROPERTY Claims
CHECK_DEADLOCK FALSE
