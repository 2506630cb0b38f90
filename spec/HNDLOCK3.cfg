SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Rounds = 3
  Tries = 2
INVARIANTS Whole Exclusive Kept
CHECK_DEADLOCK FALSE
