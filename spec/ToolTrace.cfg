SPECIFICATION Spec
INVARIANT Report
PROPERTY Frame
CHECK_DEADLOCK FALSE
