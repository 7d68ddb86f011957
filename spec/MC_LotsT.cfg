SPECIFICATION Spec
CONSTANTS
  ND = 3
  DB = 1
  MapPfx <- SmallMap
  KS = 2
  KT = 2
INVARIANTS LpmSame EqSame SearchSame FlatFast BogonFast ExcludeFast
CHECK_DEADLOCK FALSE
