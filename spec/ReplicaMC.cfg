SPECIFICATION Spec
CONSTANTS
 Events = {1, 2}
 Txs = 2
 Faults = 2
 Disasters = 0
 Large = 2
 Sizes = {1}
 Stops = TRUE
INVARIANTS InvRecoverable InvLogged InvKept InvPromised InvNames OthersStay
PROPERTIES Removals Advances
CHECK_DEADLOCK FALSE
