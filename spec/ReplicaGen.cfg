SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Depth = 26
