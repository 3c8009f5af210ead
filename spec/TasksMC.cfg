SPECIFICATION Spec
INVARIANT Inv
PROPERTY Props
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
