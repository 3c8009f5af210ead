SPECIFICATION Spec
INVARIANTS Order Equality Nested Part
CHECK_DEADLOCK FALSE
