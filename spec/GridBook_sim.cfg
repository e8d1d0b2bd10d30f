CONSTANTS Depth = 30 Spacings = {1, 2, 3} Heights = {0} Lengths = {1} Weights = FALSE Two = FALSE NoLimit = FALSE Loose = FALSE Inner = FALSE Upward = FALSE
INIT SimInit
NEXT SimNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
