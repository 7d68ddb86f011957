SPECIFICATION Spec
CONSTANTS
  ND = 2
  DB = 1
  MapPfx <- SmallMap
INVARIANTS ListInv Meaning Ends
CHECK_DEADLOCK FALSE
