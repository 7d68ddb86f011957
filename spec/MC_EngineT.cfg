SPECIFICATION Spec
CONSTANTS
  ND = 4
  DB = 1
  MapPfx <- SmallMap
  K = 3
INVARIANTS Keeps Stable Finds Walks Flats Bogons
CHECK_DEADLOCK FALSE
