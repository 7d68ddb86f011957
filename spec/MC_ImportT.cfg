SPECIFICATION WSpec
CONSTANTS
  ND = 1
  DB = 1
  MapPfx <- NoMap
  KRegs = 2
  KRows = 1
  KAnn = 1
  KFeed = 1
  KOver = 1
  Steps = 0
INVARIANTS WriteIsSays PointsSuffice
CHECK_DEADLOCK FALSE
