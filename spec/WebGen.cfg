SPECIFICATION Spec
INVARIANT NoViolation
INVARIANT Complete
INVARIANT Going
INVARIANT Cases
CHECK_DEADLOCK FALSE
CONSTANTS
 Len0 = 3
 Sized = TRUE
 Ar = "bytes"
 MaxOps = 2
 MaxAns = 3
 Cuts = {0, 1}
 Bug = "none"
