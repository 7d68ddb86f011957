SPECIFICATION Spec
CONSTANTS
  ND = 3
  DB = 1
  MapPfx <- SmallMap
  K = 2
INVARIANTS Keeps Stable Finds Walks Flats Bogons
CHECK_DEADLOCK FALSE
