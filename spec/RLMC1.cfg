SPECIFICATION Spec
CONSTANTS
  Reach = 1
  Full = FALSE
VIEW View
INVARIANTS Hard Vel
PROPERTY Moves
CHECK_DEADLOCK FALSE
