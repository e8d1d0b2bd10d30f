CONSTANTS Threads = {1, 2, 3, 4} KillLocked = FALSE AskInUpdate = FALSE TellLocked = FALSE ReadTargets = FALSE
INIT Init
NEXT Next
INVARIANTS Exclusion Released
