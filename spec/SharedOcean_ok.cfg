CONSTANTS Callers = {1, 2} Versions = {1, 2} Calcs = {1, 2} Torn = FALSE LateBind = FALSE Rebind = FALSE
INIT Init
NEXT Next
INVARIANTS OneOcean
PROPERTIES Latest AtRequest
CHECK_DEADLOCK FALSE
