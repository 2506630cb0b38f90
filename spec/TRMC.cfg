SPECIFICATION Spec
CONSTANTS
  Rs = {4, 16}
  Offs = {256}
  Vals = {512, 2048}
  Types = {"simple", "differential", "fourbar"}
INVARIANT Claims
CHECK_DEADLOCK FALSE
