SPECIFICATION Spec
CONSTANTS
 Vouchers = {"a", "b"}
 Counts = {2}
 Groups = 2
 Default = 4
 Good = {"K"}
 Bad = {"X"}
 MaxOps = 0
 Faulty = TRUE
 MaxGet = 1
INVARIANTS InvW01 InvW02 InvW03 InvW05 InvW06
PROPERTIES Steps
CHECK_DEADLOCK FALSE
