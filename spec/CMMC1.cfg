SPECIFICATION Spec
CONSTANTS
  Robot = 1
  Cover = FALSE
  MaxF = 1
  Strictnesses = {1, 2}
VIEW View
CONSTRAINT Sound
INVARIANTS Owners Exclusive Order NoLeftovers NothingRuns
PROPERTIES ChainKept ChainedWhenUsed ChainedOnlyInactive StrictAtomic NotNamed BestEffortPossible Steps Honest UpdateFailure HardwareFailure
CHECK_DEADLOCK FALSE
