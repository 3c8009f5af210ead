SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS Covers Inside Idem Commute
CHECK_DEADLOCK FALSE
