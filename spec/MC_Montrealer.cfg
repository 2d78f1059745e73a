INIT Init
NEXT Next
CONSTANT MaxN = 4
INVARIANTS Agree Count
