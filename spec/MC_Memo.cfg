CONSTANTS
  Threads = {"a", "b", "c"}
  NKeys = 2
  NItems = 2
  Limit = 1
  MaxObj = 4
  Faults = 1
INIT Init
NEXT Next
INVARIANTS Replayed Complete Bounded OneEach LocksHeld NoDeadlock
