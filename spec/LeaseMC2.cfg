CONSTANTS
    MaxTime = 7
    Servers = {"x", "y"}
    MaxFail = 1
SPECIFICATION Spec
INVARIANTS Once OnlyReachable Complete InTime
PROPERTIES OnlyNeeded Done Begins Recorded
CHECK_DEADLOCK FALSE
