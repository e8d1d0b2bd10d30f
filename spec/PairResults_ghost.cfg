CONSTANTS
  Callers = {1, 2}
  Versions = {1, 2, 3}
  Schedules = {1, 2}
  Overtake = FALSE
  Ghost = TRUE
  Mute = FALSE
INIT ModelInit
NEXT Next
INVARIANTS BivLatest SeriesLatest SeriesOfPair Complete
PROPERTIES NothingNew EveryTold
CHECK_DEADLOCK FALSE
