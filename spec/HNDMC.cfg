SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Most = 2
  Ts = {"double", "bool"}
  Loans = 1
VIEW View
INVARIANT Loaned
PROPERTIES Agree Refused Reasons Copies Moves Quiet
CHECK_DEADLOCK FALSE
