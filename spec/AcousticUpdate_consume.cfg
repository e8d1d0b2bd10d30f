CONSTANTS
  Sensors = {1}
  Others = {4}
  Steps <- StepsSmall
  Bound = 3
  Dims = {1, 4}
  Ranges = {0, 6}
  Turn = 8
  Depth = 5
  Drift = FALSE
  Consume = TRUE
  OldPlace = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS Fresh Now
PROPERTIES Request Base
CHECK_DEADLOCK FALSE
