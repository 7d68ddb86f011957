SPECIFICATION Spec
CONSTANTS
  ND = 2
  DB = 1
  MapPfx <- SmallMap
INVARIANTS Undisturbed Snapshot Emit
CHECK_DEADLOCK FALSE
