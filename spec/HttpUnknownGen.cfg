SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edges
INVARIANT NoViolation
INVARIANT InStep
CHECK_DEADLOCK FALSE
CONSTANTS
 Cl = 1000
 Ar = "bytes"
 MaxPos = 6
 Lens = {0, 2, 5}
 Bug = "none"
