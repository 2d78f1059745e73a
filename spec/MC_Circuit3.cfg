INIT Init
NEXT Next
CONSTANTS
 NM = 3
 Depth = 1
INVARIANTS Uncertainty PureWhenUnitary OthersUntouched PassiveKeeps LossNeverGains Commute RoundTrip
