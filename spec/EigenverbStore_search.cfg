CONSTANTS Kinds = 1 Volumes = {0} Slots = {1} Depth = 1 Mixed = FALSE Replace = FALSE Whole = FALSE Square = FALSE Crossed = FALSE Weak = FALSE
INIT Init
NEXT Next
INVARIANTS SearchArea SearchCases
CHECK_DEADLOCK FALSE
