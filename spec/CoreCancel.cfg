SPECIFICATION Spec
VIEW View
INVARIANTS NoViolation Quiescent Final Locks
CHECK_DEADLOCK FALSE
CONSTANTS
 Cfgs <- Small
 Reads <- Reads2
 Seeks <- SeekFew
 MaxOps = 2
 Chunks = {1, 2}
 MaxFaults = 0
 MaxCalls = 1
 MaxAdv = 0
 Cancels = TRUE
 Drops = TRUE
 Judge = TRUE
 Bug = "none"
