SPECIFICATION Spec
CONSTANT NV = 3
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
