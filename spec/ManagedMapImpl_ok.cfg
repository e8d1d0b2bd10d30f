CONSTANTS
  Keys = {1, 2, 3}
  Objects = {1, 2}
  Callers = {1, 2}
  Listeners = {1, 2}
  Auto = TRUE
  CheckUnlocked = FALSE
  NotifyUnlocked = FALSE
  EraseFirst = FALSE
  KeyUnlocked = FALSE
INIT Init
NEXT Next
INVARIANT ToldBeforeGone
PROPERTY Refines
CHECK_DEADLOCK FALSE
