SPECIFICATION Spec
CONSTANT L = 4
INVARIANTS Limits H5Limits
CHECK_DEADLOCK FALSE
