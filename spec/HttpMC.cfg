CONSTANTS
    Vouchers = {"v"}
    Groups = 2
    MaxTime = 2
    MaxSpend = 1
SPECIFICATION Spec
VIEW View
INVARIANTS Agree Counted
PROPERTIES Guarded Served Harmless Once OneAttempt Recorded
CHECK_DEADLOCK FALSE
