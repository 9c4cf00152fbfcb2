SPECIFICATION Spec
CONSTANT NV = 4
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
