SPECIFICATION Spec
CONSTANTS Depth = 9
CHECK_DEADLOCK FALSE
