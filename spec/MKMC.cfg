SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Fake = {TRUE, FALSE}
  Offs = {0, 2048}
INVARIANTS Initially Values
PROPERTIES Disabled Commands OnlyReads Reflects Untouched Again Follows Consistent Still Faults
CHECK_DEADLOCK FALSE
