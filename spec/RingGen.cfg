SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edges
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "bmem"
 Cl = 1000
 Cap = 2
 MaxPos = 6
 MaxLen = 3
 Values = {1}
 Bug = "none"
