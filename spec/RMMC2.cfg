SPECIFICATION Spec
CONSTANTS
  Robot = 2
  Cover = FALSE
VIEW View
INVARIANTS Available
PROPERTIES CallsLegal FinalStays SetHonest ClaimsExact Contained ModeSafe
CHECK_DEADLOCK FALSE
