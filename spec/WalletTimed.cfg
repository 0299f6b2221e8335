SPECIFICATION Spec
CONSTANTS
 Vouchers = {"a"}
 Counts = {3}
 Groups = 2
 Default = 4
 Good = {"K"}
 Bad = {"X"}
 MaxOps = 7
 Faulty = TRUE
 MaxGet = 2
INVARIANTS InvW01 InvW02 InvW03 InvW05 InvW06
PROPERTIES Steps
CHECK_DEADLOCK FALSE
