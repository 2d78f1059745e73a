SPECIFICATION Spec
CONSTANTS
 N = 3
 Entries = {0, 1, 3}
INVARIANTS OneFlip CombRight EachOnce Final
