SPECIFICATION Live
CONSTANTS
 Vouchers = {"a", "b"}
 Counts = {2}
 Groups = 2
 Default = 2
 Good = {"K"}
 Bad = {}
 MaxOps = 0
 Faulty = FALSE
 MaxGet = 0
INVARIANTS InvW05
PROPERTIES Resolves
CHECK_DEADLOCK FALSE
