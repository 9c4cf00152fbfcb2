CONSTANT N = 9
SPECIFICATION Spec
INVARIANT Report
CHECK_DEADLOCK FALSE
