CONSTANTS
  Monos = {TRUE, FALSE}
  Reverbs = {TRUE, FALSE}
  Versions = {1, 2, 3}
  Schedules = {0, 1, 2}
  MaxPaths = 3
  Depth = 10
  NoSwap = FALSE
  OneSide = FALSE
  EveryStage = FALSE
INIT SimInit
NEXT SimNext
CONSTRAINT Emit
INVARIANTS OwnView BothSides NoReverb Same Once SeriesLatest

CHECK_DEADLOCK FALSE
