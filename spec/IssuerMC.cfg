CONSTANTS
    Vouchers = {"v"}
    Groups = 2
    Default = 3
    MaxTime = 1
    Pairs = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Genuine Complete Tally
PROPERTIES Sound Accepted TellsApart Alone
CHECK_DEADLOCK FALSE
