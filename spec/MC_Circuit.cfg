INIT Init
NEXT Next
CONSTANTS
 NM = 2
 Depth = 3
INVARIANTS Uncertainty PureWhenUnitary OthersUntouched PassiveKeeps LossNeverGains RoundTrip
