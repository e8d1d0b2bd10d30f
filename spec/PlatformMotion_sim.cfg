CONSTANTS
  P = {1, 2, 3, 4}
  KeyOf <- KeyOfDef
  Angles = {0, 1, 2, 3}
  Coords <- CoordsDef
  Offsets <- OffsetsDef
  Speeds = {0, 1, 3}
  Steps = {0, 1, 2, 5}
  Depth = 12
  StaleHost = FALSE
  HostFrame = FALSE
INIT Init
NEXT SimNext
CONSTRAINT Emit
INVARIANTS Rigid Hosts
CHECK_DEADLOCK FALSE
