CONSTANTS Turns = {0, 1, 2, 3} Pitches <- PitchAll Keys = {0, 1, 2, 5} Modes = {0, 1, 2} Kinds = {1, 2, 3, 4} Dirs <- DirsAll Levels = {1, 2, 5} Lengths = {1, 2, 4} Delays = {0, 3, 8} Travels = {0, 5, 12, 19, 30} Powers = {6, 12, 36, 60} Axes <- AxesAll Depth = 24 MaxVerbs = 5 MaxPulses = 3 Outward = FALSE Plus = FALSE AtOnce = FALSE ByKey = FALSE Late = FALSE
INIT SimInit
NEXT SimNext
INVARIANTS Linear InTurn Rows Emit
CHECK_DEADLOCK FALSE
