CONSTANTS
  Threads = {"a", "b"}
  NKeys = 3
  NItems = 2
  Limit = 2
  MaxObj = 7
  Faults = 1
INIT Init
NEXT Next
INVARIANTS Replayed Complete Bounded OneEach LocksHeld NoDeadlock
