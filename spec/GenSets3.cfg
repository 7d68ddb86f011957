SPECIFICATION Spec
CONSTANTS
  ND = 3
  DB = 1
  MapPfx <- SmallMap
CHECK_DEADLOCK FALSE
