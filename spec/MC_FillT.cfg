SPECIFICATION FSpec
CONSTANTS
  ND = 8
  DB = 16
  Top = 108
  MapPfx <- RealMap
INVARIANTS Numbered Hosts
CHECK_DEADLOCK FALSE
