SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Rounds = 2
  Tries = 2
INVARIANTS Whole Exclusive Kept
PROPERTY Ends
CHECK_DEADLOCK FALSE
