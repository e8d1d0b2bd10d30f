CONSTANTS
  P = {1, 2, 3}
  KeyOf <- KeyOf3
  Angles = {0, 1}
  Coords <- MiniDef
  Offsets <- OneDef
  Speeds = {1}
  Steps = {1}
  Depth = 4
  StaleHost = FALSE
  HostFrame = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANTS Rigid Hosts
CHECK_DEADLOCK FALSE
