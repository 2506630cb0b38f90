SPECIFICATION Spec
CONSTANT D = 4
CONSTANT Async = 0
CONSTANT Faults = 45
INVARIANT Emit
CHECK_DEADLOCK FALSE
