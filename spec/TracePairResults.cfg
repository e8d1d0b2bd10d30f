CONSTANTS
  Callers = {1, 2, 3, 4}
  Versions = {0}
  Schedules = {0}
  Overtake = FALSE
  Ghost = FALSE
  Mute = FALSE
INIT Tinit
NEXT Tnext
CONSTRAINT Tconstraint
POSTCONDITION Report
CHECK_DEADLOCK FALSE
