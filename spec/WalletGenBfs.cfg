SPECIFICATION Spec
VIEW View
CONSTANTS
 Vouchers = {"a"}
 Counts = {3}
 Configs <- Configs1
 Bad = {"X"}
 Amounts = {1, 2}
 Gettable = {1, 2}
 Depth = 6
 FaultMax = 9
 Mode = "all"
CHECK_DEADLOCK FALSE
