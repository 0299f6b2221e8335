SPECIFICATION Fair
CONSTANTS
 Events = {1, 2}
 Txs = 3
 Faults = 0
 Disasters = 0
 Large = 2
 Sizes = {1}
 Stops = FALSE
PROPERTIES Prompt
CHECK_DEADLOCK FALSE
