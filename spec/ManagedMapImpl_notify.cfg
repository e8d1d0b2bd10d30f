CONSTANTS
  Keys = {1, 2, 3}
  Objects = {1, 2}
  Callers = {1, 2}
  Listeners = {1, 2}
  Auto = FALSE
  CheckUnlocked = FALSE
  NotifyUnlocked = TRUE
  EraseFirst = FALSE
  KeyUnlocked = FALSE
INIT Init
NEXT Next
INVARIANT ToldBeforeGone
PROPERTY Refines
CHECK_DEADLOCK FALSE
