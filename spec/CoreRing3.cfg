SPECIFICATION Spec
VIEW View
INVARIANTS NoViolation Quiescent Final Locks
CHECK_DEADLOCK FALSE
CONSTANTS
 Cfgs <- RingOne
 Reads <- Reads12
 Seeks <- SeekRing
 MaxOps = 3
 Chunks = {1, 2}
 MaxFaults = 0
 MaxCalls = 0
 MaxAdv = 0
 Cancels = FALSE
 Drops = FALSE
 Judge = TRUE
 Bug = "none"
