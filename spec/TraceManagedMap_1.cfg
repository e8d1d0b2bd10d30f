CONSTANTS
  Keys = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}
  Objects = {1,2,3,4,5,6,7,8,9,10,11,12}
  Callers = {1, 2, 3, 4, 5, 6}
  Listeners = {1, 2, 3}
  Auto = TRUE
INIT Tinit
NEXT Tnext
CONSTRAINT Tconstraint
POSTCONDITION Report
CHECK_DEADLOCK FALSE
