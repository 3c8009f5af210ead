SPECIFICATION Spec
CONSTANTS L = 3
          M = 3
INVARIANTS Canonical UpAndDown Rel InUp Assoc
CHECK_DEADLOCK FALSE
