SPECIFICATION Spec
CONSTANTS NUnits = 4  BufLen = 2  Careful = TRUE
INVARIANTS Complete Honest
CHECK_DEADLOCK FALSE
