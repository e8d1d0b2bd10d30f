CONSTANTS Threads = {1, 2, 3} KillLocked = TRUE AskInUpdate = FALSE TellLocked = FALSE ReadTargets = FALSE
INIT Init
NEXT Next
INVARIANTS Exclusion Released
