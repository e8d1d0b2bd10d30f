CONSTANTS Turns = {0, 1} Pitches = {0} Keys = {0, 3} Modes = {0} Kinds = {2, 3} Dirs <- DirsSmall Levels = {1} Lengths = {1} Delays = {0, 2} Travels = {0} Powers = {6} Axes <- AxesSmall Depth = 7 MaxVerbs = 1 MaxPulses = 2 Outward = FALSE Plus = FALSE AtOnce = FALSE ByKey = TRUE Late = FALSE
INIT Init
NEXT Next
INVARIANTS Linear Isotropic InTurn Rows
PROPERTIES Frozen
VIEW View
CHECK_DEADLOCK FALSE
