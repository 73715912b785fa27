SPECIFICATION Spec
VIEW Pos
INVARIANT Report
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
