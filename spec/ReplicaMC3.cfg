SPECIFICATION Spec
CONSTANTS
 Events = {2}
 Txs = 3
 Faults = 2
 Disasters = 1
 Large = 2
 Sizes = {1}
 Stops = TRUE
INVARIANTS InvRecoverable InvLogged InvKept InvPromised InvNames OthersStay
PROPERTIES Removals Advances
CHECK_DEADLOCK FALSE
