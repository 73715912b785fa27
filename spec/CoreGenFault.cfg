SPECIFICATION Spec
VIEW ViewS
ACTION_CONSTRAINT Edges
INVARIANT First
CHECK_DEADLOCK FALSE
CONSTANTS
 Cfgs <- GenFault_
 Reads <- Reads2
 Seeks <- SeekFew
 MaxOps = 1
 Chunks = {1, 2}
 MaxFaults = 1
 MaxCalls = 1
 MaxAdv = 0
 Cancels = FALSE
 Drops = FALSE
 Judge = FALSE
 Bug = "none"
