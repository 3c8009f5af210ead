SPECIFICATION Spec
INVARIANTS Shaped Once Twice Ndim Split
CHECK_DEADLOCK FALSE
