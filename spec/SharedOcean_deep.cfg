CONSTANTS Callers = {1, 2, 3} Versions = {1, 2, 3} Calcs = {1, 2, 3} Torn = FALSE LateBind = FALSE Rebind = FALSE
INIT Init
NEXT Next
INVARIANTS OneOcean
PROPERTIES Latest AtRequest
CHECK_DEADLOCK FALSE
