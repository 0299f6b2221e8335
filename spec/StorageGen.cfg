SPECIFICATION Spec
CONSTANTS
 Depth = 26
CHECK_DEADLOCK FALSE
