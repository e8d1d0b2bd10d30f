CONSTANTS
  Tasks = {1, 2}
  Workers = {1, 2}
  NoId = 999
  AtomicId = TRUE
  HoldLockToJoin = FALSE
  DiscardCounts = TRUE
  PopBack = FALSE
  StopBeforeEnd = FALSE
SPECIFICATION Spec
INVARIANTS ActiveExact UniqueIds AtMostWidth DeadIsDead
PROPERTIES Refines DtorEnds WaitEnds AllRun
CHECK_DEADLOCK FALSE
