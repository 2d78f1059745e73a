INIT Init
NEXT Next
INVARIANTS Fid1 Two2
