SPECIFICATION TSpec
CONSTANTS
  ND = 8
  DB = 16
  MapPfx <- RealMap
CHECK_DEADLOCK FALSE
