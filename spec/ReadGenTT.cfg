SPECIFICATION Spec
CONSTANTS Which = "T" MaxLen = 6
CONSTRAINT Depth
INVARIANTS Emit Closed Scoped FramesWF
CHECK_DEADLOCK FALSE
