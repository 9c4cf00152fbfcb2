CONSTANTS N = 6
SPECIFICATION Spec
INVARIANTS Window Inverse Report
CHECK_DEADLOCK FALSE
