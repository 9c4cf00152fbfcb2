CONSTANTS N = 4
SPECIFICATION Spec
INVARIANTS Window Inverse Report
CHECK_DEADLOCK FALSE
