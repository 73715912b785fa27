SPECIFICATION Spec
INVARIANTS NoViolation Clean Killed Cases
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
 Sources = {"gen9", "hang9"}
 Filters = {"inc", "stay"}
 MaxFilters = 1
 Fails = {99, 3}
 Stderrs = {"file", "null"}
 Missings = {99}
 Bug = "none"
