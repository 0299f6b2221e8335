CONSTANTS
    MaxTime = 9
    Servers = {"x"}
    MaxFail = 1
SPECIFICATION Spec
INVARIANTS Once OnlyReachable Complete InTime
PROPERTIES OnlyNeeded Done Begins Recorded
CHECK_DEADLOCK FALSE
