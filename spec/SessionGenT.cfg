SPECIFICATION Spec
CONSTANTS N = 5
INVARIANT Promises
INVARIANT Report
CHECK_DEADLOCK FALSE
