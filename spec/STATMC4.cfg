SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 3, 7}
  Bias = 3
  Most = 4
  Wins = {0, 1, 2, 3}
INVARIANT Inv
CHECK_DEADLOCK FALSE
