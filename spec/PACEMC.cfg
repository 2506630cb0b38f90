SPECIFICATION Spec
CONSTANTS
  P = 5
  Most = 40
  Back = 60
INVARIANT Whole
PROPERTIES Regular Managed MadeUp Stretched Simulated
CHECK_DEADLOCK FALSE
