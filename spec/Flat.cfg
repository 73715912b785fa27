SPECIFICATION Spec
VIEW View
INVARIANTS NoViolation Exact OneCell
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "mem"
 Cl = 1000
 Cap = 3
 MaxPos = 5
 MaxLen = 3
 Values = {1, 2}
 Bug = "none"
