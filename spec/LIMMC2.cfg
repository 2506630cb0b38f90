SPECIFICATION Spec
CONSTANTS
  Reach = 1
  Kind = "soft"
  N = 2
  Full = TRUE
  Dns = {1}
VIEW View
PROPERTY Claims
CHECK_DEADLOCK FALSE
