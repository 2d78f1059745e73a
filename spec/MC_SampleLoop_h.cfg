SPECIFICATION FairSpec
CONSTANTS NModes = 2 F = 0 Cut = 2 MaxP = 2 W = 1 N = 3 Early = FALSE
INVARIANTS Safe Exact Replay EarlySound
PROPERTY AllDone
