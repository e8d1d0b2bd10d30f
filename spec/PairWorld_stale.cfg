CONSTANTS Callers = {1, 2} Objects = {1, 2, 3, 4} Calcs = {1, 2} Early = FALSE Stale = TRUE Leave = FALSE
INIT ModelInit
NEXT Next
INVARIANTS Exact OwnResults
PROPERTIES WholeQuery
CHECK_DEADLOCK FALSE
