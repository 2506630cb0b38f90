SPECIFICATION Spec
CONSTANT D = 25
INVARIANT Emit
CHECK_DEADLOCK FALSE
