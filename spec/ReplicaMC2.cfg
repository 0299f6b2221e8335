SPECIFICATION Spec
CONSTANTS
 Events = {1}
 Txs = 3
 Faults = 1
 Disasters = 1
 Large = 2
 Sizes = {1}
 Stops = FALSE
INVARIANTS InvRecoverable InvLogged InvKept InvPromised InvNames OthersStay
PROPERTIES Removals Advances
CHECK_DEADLOCK FALSE
