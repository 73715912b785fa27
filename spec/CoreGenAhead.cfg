SPECIFICATION Spec
VIEW ViewS
ACTION_CONSTRAINT Edges
INVARIANT First
CHECK_DEADLOCK FALSE
CONSTANTS
 Cfgs <- GenAhead_
 Reads <- Reads1
 Seeks <- SeekAhead
 MaxOps = 3
 Chunks = {2}
 MaxFaults = 0
 MaxCalls = 0
 MaxAdv = 0
 Cancels = FALSE
 Drops = FALSE
 Judge = FALSE
 Bug = "none"
