CONSTANTS
  Sensors = {1, 2}
  Others = {3, 4}
  Steps <- StepsSim
  Bound = 12
  Dims = {1, 2, 3, 4, 5, 6}
  Ranges = {0, 2, 6, 20}
  Turn = 180
  Depth = 14
  Drift = FALSE
  Consume = FALSE
  OldPlace = FALSE
INIT SimInit
NEXT SimNext
CONSTRAINT Emit
INVARIANTS Fresh Now
CHECK_DEADLOCK FALSE
