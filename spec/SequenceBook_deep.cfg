CONSTANTS Firsts <- FirstsAll Steps <- StepsAll Sizes = {1, 2, 3, 4, 5, 6} Ratios <- RatiosAll Tables <- TablesAll Scales = {0} Depth = 4 Beyond = 2 NoClamp = FALSE Rising = FALSE Strict = FALSE Past = FALSE Zero = FALSE Relative = FALSE Exclude = FALSE
INIT Init
NEXT Next
INVARIANTS Lookup Closest Monotonic
PROPERTIES Clipped Rebuilt Augmented
VIEW View
CHECK_DEADLOCK FALSE
