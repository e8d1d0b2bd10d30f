CONSTANTS
  S = {1, 2, 3, 4}
  KeyOf <- KeyOfDef
  Roles = {1, 2, 3}
  MinRanges = {0, 1}
  Groups = {0, 1, 2}
  Times = {0, 1}
  Listeners = {0, 1, 2}
  Depth = 16
  WrongList = FALSE
  KeepRole = FALSE
  AnyGroup = FALSE
INIT SimInit
NEXT SimNext
CONSTRAINT Emit
INVARIANTS PairsExact KeysUnique Lists
CHECK_DEADLOCK FALSE
