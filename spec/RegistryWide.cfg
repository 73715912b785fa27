SPECIFICATION Spec
INVARIANTS Finds Lossless Cases
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxEntries = 3
 MaxRules = 1
 Priorities = {1, 2}
 RuleNames = {"pa", "pe", "ph", "sa", "sf", "ua", "uh", "ud"}
 Bug = "none"
