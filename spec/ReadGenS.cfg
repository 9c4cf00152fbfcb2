SPECIFICATION Spec
CONSTANTS Which = "S" MaxLen = 5
CONSTRAINT Depth
INVARIANTS Emit Closed Scoped FramesWF
CHECK_DEADLOCK FALSE
