SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edges
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "mem"
 Cl = 1000
 Cap = 3
 MaxPos = 4
 MaxLen = 3
 Values = {1}
 Bug = "none"
