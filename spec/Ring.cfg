SPECIFICATION Spec
VIEW View
INVARIANTS NoViolation Exact OneCell
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "bmem"
 Cl = 1000
 Cap = 3
 MaxPos = 8
 MaxLen = 4
 Values = {1, 2}
 Bug = "none"
