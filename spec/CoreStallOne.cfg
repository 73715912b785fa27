SPECIFICATION Spec
VIEW View
INVARIANTS NoViolation Quiescent Final Locks
CHECK_DEADLOCK FALSE
CONSTANTS
 Cfgs <- Small
 Reads <- Reads2
 Seeks <- SeekFew
 MaxOps = 1
 Chunks = {1, 2}
 MaxFaults = 0
 MaxCalls = 1
 MaxAdv = 4
 Cancels = FALSE
 Drops = FALSE
 Judge = TRUE
 Bug = "none"
