SPECIFICATION Spec
CONSTANTS NUnits = 4  BufLen = 2  Careful = FALSE
INVARIANTS Complete Honest
CHECK_DEADLOCK FALSE
