CONSTANTS
  Threads = {"a", "b"}
  NKeys = 2
  NItems = 2
  Limit = 1
  MaxObj = 4
  Faults = 1
SPECIFICATION Spec
PROPERTIES Finishes
