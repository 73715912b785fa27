SPECIFICATION Spec
INVARIANTS NoViolation Clean Killed Cases
CONSTRAINT Short
CHECK_DEADLOCK FALSE
CONSTANTS
 Sources = {"gen0", "gen9", "bad9", "hang9"}
 Filters = {"cat", "inc", "head5", "head0", "fail", "stay", "linger", "flood"}
 MaxFilters = 2
 Fails = {99}
 Stderrs = {"file"}
 Missings = {99}
 Bug = "none"
