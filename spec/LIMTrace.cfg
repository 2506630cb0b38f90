SPECIFICATION Spec
CONSTANT Reach = 18301
VIEW View
CHECK_DEADLOCK FALSE
