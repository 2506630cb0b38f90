SPECIFICATION Spec
CONSTANTS
  Robot = 3
  Cover = TRUE
VIEW View
INVARIANTS Available
PROPERTIES CallsLegal FinalStays SetHonest ClaimsExact Contained ModeSafe
CHECK_DEADLOCK FALSE
