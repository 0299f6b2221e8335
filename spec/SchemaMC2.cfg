CONSTANTS
    Vouchers = {"v", "w", "x"}
    MaxDeaths = 1
SPECIFICATION Spec
INVARIANTS Intact Whole Sensible
PROPERTIES Idle
CHECK_DEADLOCK FALSE
