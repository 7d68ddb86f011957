SPECIFICATION Spec
CONSTANTS
  ND = 3
  DB = 1
  MapPfx <- SmallMap
  KS = 2
  KT = 2
INVARIANTS CriticalSuffices FlatSame CoverSame BogonSame BogonDefSame ExcludeSame LookupFinds
CHECK_DEADLOCK FALSE
