SPECIFICATION Spec
CONSTANTS
 N = 3
 Entries = {1, 2}
 Extra = 3
INVARIANTS Filled Minors Traces
PROPERTY Finishes
