CONSTANTS
    Vouchers = {"v", "w"}
    Groups = 2
    Default = 3
    MaxTime = 1
    Pairs = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Genuine Complete Tally
PROPERTIES Sound Accepted TellsApart Alone
CHECK_DEADLOCK FALSE
