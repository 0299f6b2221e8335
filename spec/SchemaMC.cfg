CONSTANTS
    Vouchers = {"v", "w"}
    MaxDeaths = 2
SPECIFICATION Live
INVARIANTS Intact Whole Sensible
PROPERTIES Idle Finally
CHECK_DEADLOCK FALSE
