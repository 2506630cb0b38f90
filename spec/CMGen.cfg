SPECIFICATION Spec
CONSTANT D = 60
CONSTANT Async = 15
CONSTANT Faults = 30
INVARIANT Emit
CHECK_DEADLOCK FALSE
