SPECIFICATION Spec
INVARIANTS NoViolation Told Cases
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 4
 Entries = {"from", "new", "ar"}
 Bug = "none"
