CONSTANTS Kinds = 6 Volumes <- VolumesAll Slots = {1, 2} Depth = 16 Mixed = FALSE Replace = FALSE Whole = FALSE Square = FALSE Crossed = FALSE Weak = FALSE
INIT Init
NEXT SimNext
INVARIANTS Emit Sorted
PROPERTIES Adds
CHECK_DEADLOCK FALSE
