SPECIFICATION CSpec
INVARIANTS NoViolation Agrees CCases
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "bmem"
 Cl = 1000
 Cap = 2
 MaxPos = 8
 MaxLen = 2
 Values = {1}
 MaxPrefix = 2
 Bug = "none"
