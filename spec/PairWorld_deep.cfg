CONSTANTS Callers = {1, 2} Objects = {1, 2, 3} Calcs = {1, 2} Early = FALSE Stale = FALSE Leave = FALSE
INIT ModelInit
NEXT Next
INVARIANTS Exact OwnResults
PROPERTIES WholeQuery
CHECK_DEADLOCK FALSE
