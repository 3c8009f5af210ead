SPECIFICATION Spec
INVARIANTS Included Kept Few Ordered SetOne Well
CHECK_DEADLOCK FALSE
