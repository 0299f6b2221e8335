SPECIFICATION Spec
CONSTANTS Depth = 40
CHECK_DEADLOCK FALSE
