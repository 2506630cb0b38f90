SPECIFICATION Spec
CONSTANTS
  Robot = 2
  Cover = TRUE
  MaxF = 1
  Strictnesses = {1, 2}
VIEW View
CONSTRAINT Sound
CHECK_DEADLOCK FALSE
