CONSTANTS
    Vouchers = {"v", "w"}
    Groups = 1
    MaxTime = 0
    MaxSpend = 1
SPECIFICATION Spec
VIEW View
INVARIANTS Agree Counted
PROPERTIES Guarded Served Harmless Once OneAttempt Recorded
CHECK_DEADLOCK FALSE
