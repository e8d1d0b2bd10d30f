CONSTANTS Threads = {1, 2, 3} KillLocked = FALSE AskInUpdate = FALSE TellLocked = FALSE ReadTargets = TRUE
INIT Init
NEXT Next
INVARIANTS Exclusion Released
