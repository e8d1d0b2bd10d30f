CONSTANTS
  Callers = {1, 2, 3, 4}
  Objects = {1, 2, 3, 4, 5, 6}
  Calcs = {0}
  Early = FALSE
  Stale = FALSE
  Leave = FALSE
INIT Tinit
NEXT Tnext
CONSTRAINT Tconstraint
POSTCONDITION Report
CHECK_DEADLOCK FALSE
