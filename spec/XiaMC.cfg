SPECIFICATION Spec
INVARIANTS PartOfWhole One Sums
CHECK_DEADLOCK FALSE
