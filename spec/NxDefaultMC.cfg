SPECIFICATION Spec
PROPERTY Props
VIEW View
CHECK_DEADLOCK FALSE
