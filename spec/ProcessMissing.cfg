SPECIFICATION Spec
INVARIANTS NoViolation Clean Killed Cases

CHECK_DEADLOCK FALSE
CONSTANTS
 Sources = {"gen9", "hang9"}
 Filters = {"inc"}
 MaxFilters = 2
 Fails = {99}
 Stderrs = {"file", "out"}
 Missings = {0, 1, 2}
 Bug = "none"
