SPECIFICATION Spec
CONSTANTS
  ND = 8
  DB = 16
  MapPfx <- RealMap
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
