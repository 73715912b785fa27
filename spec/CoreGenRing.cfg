SPECIFICATION Spec
VIEW ViewS
ACTION_CONSTRAINT Edges
INVARIANT First
CHECK_DEADLOCK FALSE
CONSTANTS
 Cfgs <- GenRing_
 Reads <- Reads2
 Seeks <- SeekRing
 MaxOps = 2
 Chunks = {1, 2}
 MaxFaults = 0
 MaxCalls = 0
 MaxAdv = 0
 Cancels = FALSE
 Drops = FALSE
 Judge = FALSE
 Bug = "none"
