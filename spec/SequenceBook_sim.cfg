CONSTANTS Firsts <- FirstsAll Steps <- StepsAll Sizes = {1, 2, 3, 4, 5, 6} Ratios <- RatiosAll Tables <- TablesAll Scales = {0, 1, 2, 3} Depth = 5 Beyond = 2 NoClamp = FALSE Rising = FALSE Strict = FALSE Past = FALSE Zero = FALSE Relative = FALSE Exclude = FALSE
INIT Init
NEXT SimNext
INVARIANTS Lookup Closest Monotonic Emit
CHECK_DEADLOCK FALSE
