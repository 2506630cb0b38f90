SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Fake = {TRUE}
  Offs = {2048}
INVARIANTS Initially Values
PROPERTIES Disabled Commands OnlyReads Reflects Untouched Again Follows Consistent Still Faults
CHECK_DEADLOCK FALSE
