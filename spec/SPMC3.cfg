SPECIFICATION Spec
CONSTANTS
  Second = "same"
  Faults = 1
  Outs = {"no", "lost", "late", "int0", "int1"}
  Starts = {"-", "U", "I", "A"}
VIEW View
INVARIANTS OneAtATime LockedWhileAsking NoLockWhenWaiting OnlyItsOwn SuccessNow Gone
PROPERTIES Success Untouched AsTold NoFalseSuccess Ends
CHECK_DEADLOCK FALSE
