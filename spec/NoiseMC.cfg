CONSTANTS
 N = 8
INIT Init
NEXT Next
INVARIANTS Invariance WhiteLaw
