CONSTANTS PatLen = 6
 LabLen = 6
SPECIFICATION Spec
INVARIANTS Agree Report
CHECK_DEADLOCK FALSE
