SPECIFICATION Spec
INVARIANTS Correct Cases
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxCalls = 5
 MaxCmds = 3
 Bug = "none"
