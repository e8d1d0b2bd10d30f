CONSTANTS Grids <- GridsSmall Ids = {5, 7} Depth = 4 Times = {3, 6} Levels = {0, 1} Angles <- AnglesSmall Moves <- MovesSmall Cross = FALSE Again = FALSE Last = TRUE NoGap = FALSE Push = FALSE
INIT Init
NEXT Next

INVARIANTS Partition InOrder Earliest Own Delimits Closer
PROPERTIES Idempotent
CHECK_DEADLOCK FALSE
