INIT Init
NEXT Next
INVARIANTS Normalised Exact Truncated
