SPECIFICATION Spec
INVARIANTS Nesting LogComplete Report
PROPERTY SilentQuiet
CHECK_DEADLOCK FALSE
