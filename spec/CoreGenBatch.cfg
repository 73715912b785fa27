SPECIFICATION Spec
VIEW ViewS
ACTION_CONSTRAINT Edges
INVARIANT First
CHECK_DEADLOCK FALSE
CONSTANTS
 Cfgs <- Batch
 Reads <- Reads2
 Seeks <- SeekFew
 MaxOps = 1
 Chunks = {1, 3}
 MaxFaults = 0
 MaxCalls = 0
 MaxAdv = 0
 Cancels = FALSE
 Drops = FALSE
 Judge = FALSE
 Bug = "none"
