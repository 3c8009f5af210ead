SPECIFICATION Spec
CONSTANTS L = 1
          M = 0
INVARIANTS Free TempSafe
CHECK_DEADLOCK FALSE
