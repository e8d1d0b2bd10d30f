CONSTANTS
  Sensors = {1}
  Calcs = {1, 2, 3}
  Callers = {1, 2}
  Listeners = {1, 2}
  LateCheck = FALSE
  NoTurn = FALSE
  NoAbort = FALSE
INIT ModelInit
NEXT Next
INVARIANTS NoAbortedResult Latest PairLatest Once AllDelivered
PROPERTIES InOrder
CHECK_DEADLOCK FALSE
