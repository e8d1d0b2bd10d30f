CONSTANTS Threads = {1, 2, 3} KillLocked = FALSE AskInUpdate = FALSE TellLocked = FALSE ReadTargets = FALSE
INIT Init
NEXT Next
INVARIANTS Exclusion Released
