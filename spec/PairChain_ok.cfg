CONSTANTS
  Monos = {TRUE, FALSE}
  Reverbs = {TRUE, FALSE}
  Versions = {1, 2}
  Schedules = {0, 1, 2}
  MaxPaths = 3
  Depth = 5
  NoSwap = FALSE
  OneSide = FALSE
  EveryStage = FALSE
INIT Init
NEXT Next
VIEW View
PROPERTIES SideKept
INVARIANTS OwnView BothSides NoReverb Same Once SeriesLatest

CHECK_DEADLOCK FALSE
