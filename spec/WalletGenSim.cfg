SPECIFICATION Spec
CONSTANTS
 Vouchers = {"a", "b", "c"}
 Counts = {2, 3, 5, 9, 11}
 Configs <- Configs2
 Bad = {"X", "Y"}
 Amounts = {1, 2, 9}
 Gettable = {1, 2, 4, 7}
 Depth = 16
 FaultMax = 9
 Mode = "sim"
CHECK_DEADLOCK FALSE
