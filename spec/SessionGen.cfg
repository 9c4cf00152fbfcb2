SPECIFICATION Spec
CONSTANTS N = 4
INVARIANT Promises
INVARIANT Report
CHECK_DEADLOCK FALSE
