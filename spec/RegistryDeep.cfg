SPECIFICATION Spec
INVARIANTS Finds Lossless Cases
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxEntries = 2
 MaxRules = 2
 Priorities = {1, 2}
 RuleNames = {"pa", "pe", "sf", "uh", "ud"}
 Bug = "none"
