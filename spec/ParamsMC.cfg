SPECIFICATION Spec
INVARIANT Inv
INVARIANT Lookup
PROPERTY Props
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
