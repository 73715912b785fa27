SPECIFICATION Spec
VIEW ViewS
ACTION_CONSTRAINT Edges
INVARIANT First
CHECK_DEADLOCK FALSE
CONSTANTS
 Cfgs <- Small
 Reads <- Reads2
 Seeks <- SeekFew
 MaxOps = 1
 Chunks = {1, 2}
 MaxFaults = 0
 MaxCalls = 1
 MaxAdv = 4
 Cancels = FALSE
 Drops = FALSE
 Judge = FALSE
 Bug = "none"
