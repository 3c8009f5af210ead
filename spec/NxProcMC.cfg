SPECIFICATION Spec
INVARIANT Inv
PROPERTY Props
CONSTRAINT Small
VIEW View
CHECK_DEADLOCK FALSE
