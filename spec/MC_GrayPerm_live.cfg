SPECIFICATION Spec
CONSTANTS
 N = 4
 Entries = {1}
INVARIANTS OneFlip CombRight EachOnce Final
PROPERTY Ends
