SPECIFICATION HSpec
CONSTANTS
  ND = 2
  DB = 1
  MapPfx <- NoMap
  KRegs = 0
  KRows = 0
  KAnn = 0
  KFeed = 0
  KOver = 0
  Steps = 6
  Sound <- AnySound
  Routed <- AnyRouted
INVARIANTS Good Fresh
CHECK_DEADLOCK FALSE
