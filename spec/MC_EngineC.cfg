SPECIFICATION Spec
CONSTANTS
  ND = 3
  DB = 1
  MapPfx <- SmallMap
  K = 4
INVARIANTS Keeps Stable
CONSTRAINT OnlyClean
CHECK_DEADLOCK FALSE
