CONSTANTS Firsts <- FirstsSmall Steps <- StepsSmall Sizes = {1, 2, 3, 4} Ratios <- RatiosSmall Tables <- TablesSmall Scales = {0} Depth = 3 Beyond = 2 NoClamp = FALSE Rising = FALSE Strict = FALSE Past = FALSE Zero = FALSE Relative = TRUE Exclude = FALSE
INIT Init
NEXT Next
INVARIANTS Lookup Closest Monotonic
PROPERTIES Clipped Rebuilt Augmented
VIEW View
CHECK_DEADLOCK FALSE
