CONSTANTS
  Iters = 5
  Workers = 3
SPECIFICATION Spec
INVARIANTS Result
PROPERTIES Ends
