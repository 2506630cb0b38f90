SPECIFICATION Spec
CONSTANTS Robot = 1
  Cover = TRUE
VIEW View
CHECK_DEADLOCK FALSE
