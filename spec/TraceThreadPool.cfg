CONSTANTS
  Tasks = {1, 2, 3, 4, 5, 6, 7, 8}
  Pools = {1, 2, 3}
  Callers = {0, 1, 2, 3, 4, 5}
  NoId = 999
INIT Tinit
NEXT Tnext
CONSTRAINT Tconstraint
INVARIANT Tinvariant
POSTCONDITION Report
CHECK_DEADLOCK FALSE
