SPECIFICATION Spec
VIEW View
INVARIANTS NoViolation Quiescent Final Locks
CHECK_DEADLOCK FALSE
CONSTANTS
 Cfgs <- Failing_
 Reads <- Reads2
 Seeks <- SeekFew
 MaxOps = 2
 Chunks = {1, 2}
 MaxFaults = 1
 MaxCalls = 1
 MaxAdv = 0
 Cancels = FALSE
 Drops = FALSE
 Judge = TRUE
 Bug = "none"
