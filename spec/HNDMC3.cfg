SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Most = 3
  Ts = {"double"}
  Loans = 0
VIEW View
INVARIANT Loaned
PROPERTIES Agree Refused Reasons Copies Moves Quiet
CHECK_DEADLOCK FALSE
