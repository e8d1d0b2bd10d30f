CONSTANTS
  Sensors = {1, 2}
  Calcs = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  Callers = {1, 2, 3}
  Listeners = {1, 2}
  LateCheck = FALSE
  NoTurn = FALSE
  NoAbort = FALSE
INIT Tinit
NEXT Tnext
CONSTRAINT Tconstraint
INVARIANTS NoAbortedResult Once
POSTCONDITION Report
CHECK_DEADLOCK FALSE
