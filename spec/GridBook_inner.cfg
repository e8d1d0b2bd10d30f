CONSTANTS Depth = 0 Spacings = {1, 3} Heights = {0, 1, 3} Lengths = {1, 2, 4} Weights = FALSE Two = FALSE NoLimit = FALSE Loose = FALSE Inner = TRUE Upward = FALSE
INIT Init
NEXT Next
INVARIANTS Nodes Between Steady Straight Smooth Limited Extended Mirrored
CHECK_DEADLOCK FALSE
