SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edges
INVARIANT NoViolation
INVARIANT InStep
CHECK_DEADLOCK FALSE
CONSTANTS
 Size = 0
 Chunk = 2
 Reads = {1, 3, 9}
 Bug = "none"
