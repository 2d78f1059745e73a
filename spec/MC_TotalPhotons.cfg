INIT Init
NEXT Next
INVARIANTS FromState Identical Passive Patterns Sub1 Moments1 Thinned OneSq
