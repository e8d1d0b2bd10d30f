CONSTANTS Grids <- GridsAll Ids = {5, 7, 9} Depth = 10 Times = {1, 2, 3, 5, 8, 13, 21, 40} Levels = {0, 1, 2, 3} Angles <- AnglesRight Moves <- MovesAll Cross = FALSE Again = FALSE Last = FALSE NoGap = FALSE Push = FALSE
INIT SimInit
NEXT SimNext
INVARIANTS Partition InOrder Earliest Own Delimits Closer Emit
CHECK_DEADLOCK FALSE
