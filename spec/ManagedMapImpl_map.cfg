CONSTANTS
  Keys = {1, 2}
  Objects = {1, 2}
  Callers = {1, 2}
  Listeners = {1, 2}
  Auto = FALSE
  CheckUnlocked = FALSE
  NotifyUnlocked = FALSE
  EraseFirst = FALSE
  KeyUnlocked = FALSE
INIT Init
NEXT Next
INVARIANT ToldBeforeGone
PROPERTY Refines
CHECK_DEADLOCK FALSE
