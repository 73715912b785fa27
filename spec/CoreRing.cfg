SPECIFICATION Spec
VIEW View
INVARIANTS NoViolation Quiescent Final Locks
CHECK_DEADLOCK FALSE
CONSTANTS
 Cfgs <- RingCfg
 Reads <- Reads12
 Seeks <- SeekMix
 MaxOps = 2
 Chunks = {1, 2}
 MaxFaults = 0
 MaxCalls = 0
 MaxAdv = 0
 Cancels = FALSE
 Drops = FALSE
 Judge = TRUE
 Bug = "none"
