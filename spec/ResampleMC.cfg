SPECIFICATION Spec
INVARIANTS Named Grid2 Self Between Covered Same0
CHECK_DEADLOCK FALSE
CONSTANT Full = TRUE
