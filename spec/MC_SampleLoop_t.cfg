SPECIFICATION FairSpec
CONSTANTS NModes = 3 F = 2 Cut = 1 MaxP = 1 W = 1 N = 2 Early = TRUE
INVARIANTS Safe Exact Replay EarlySound
PROPERTY AllDone
