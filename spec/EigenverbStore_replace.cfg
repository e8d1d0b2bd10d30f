CONSTANTS Kinds = 1 Volumes <- VolumesSmall Slots = {1} Depth = 4 Mixed = FALSE Replace = TRUE Whole = FALSE Square = FALSE Crossed = FALSE Weak = FALSE
INIT Init
NEXT Next
INVARIANTS SearchArea Sorted
PROPERTIES Adds Combines
CHECK_DEADLOCK FALSE
