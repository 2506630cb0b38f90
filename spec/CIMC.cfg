SPECIFICATION Spec
CONSTANTS
  Cms = {0, 10}
  Pars = {0, 3, 5, 10, 20}
INVARIANT Claims
PROPERTY Moves
VIEW View
CHECK_DEADLOCK FALSE
