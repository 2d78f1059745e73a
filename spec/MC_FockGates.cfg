INIT Init
NEXT Next
INVARIANT AreTheGates
