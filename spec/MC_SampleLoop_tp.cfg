SPECIFICATION FairSpec
CONSTANTS NModes = 2 F = 2 Cut = 2 MaxP = 1 W = 2 N = 2 Early = FALSE
INVARIANTS Safe Exact Replay EarlySound
PROPERTY AllDone
