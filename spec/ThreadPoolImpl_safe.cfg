CONSTANTS
  Tasks = {1, 2, 3}
  Workers = {1, 2}
  NoId = 999
  AtomicId = TRUE
  HoldLockToJoin = FALSE
  DiscardCounts = TRUE
  PopBack = FALSE
  StopBeforeEnd = FALSE
INIT Init
NEXT Next
INVARIANTS ActiveExact UniqueIds AtMostWidth DeadIsDead
PROPERTIES Refines
CHECK_DEADLOCK FALSE
