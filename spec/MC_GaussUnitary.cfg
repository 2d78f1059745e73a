INIT Init
NEXT Next
INVARIANTS Holds GateKernels
