SPECIFICATION Spec
INVARIANT Report
PROPERTY Grows
CHECK_DEADLOCK FALSE
