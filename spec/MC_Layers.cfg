CONSTANT MaxN = 9
INIT Init
NEXT Next
INVARIANTS InBand Edge Same Blocks Symmetric
