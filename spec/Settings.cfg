SPECIFICATION Spec
INVARIANTS NoViolation Cases
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxCalls = 3
 Bug = "none"
