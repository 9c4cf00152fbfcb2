CONSTANTS PatLen = 5
 LabLen = 4
SPECIFICATION Spec
INVARIANTS Agree Report
CHECK_DEADLOCK FALSE
