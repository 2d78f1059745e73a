INIT Init
NEXT Next
INVARIANTS Grow Same RankOne Normal
