CONSTANTS
  Callers = {1, 2, 3, 4}
  Versions = {0}
  Calcs = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  Torn = FALSE
  LateBind = FALSE
  Rebind = FALSE
INIT Tinit
NEXT Tnext
CONSTRAINT Tconstraint
POSTCONDITION Report
CHECK_DEADLOCK FALSE
