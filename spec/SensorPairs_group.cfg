CONSTANTS
  S = {1, 2, 3}
  KeyOf <- KeyOf3
  Roles = {1, 2, 3}
  MinRanges = {0}
  Groups = {0, 1}
  Times = {1}
  Listeners = {0}
  Depth = 8
  WrongList = FALSE
  KeepRole = FALSE
  AnyGroup = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANTS PairsExact KeysUnique Lists
CHECK_DEADLOCK FALSE
