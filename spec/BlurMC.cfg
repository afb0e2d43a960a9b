CONSTANTS
 N = 5
 V = 2
 Sigs = {150, 400, 1000, 2300, 7000}
INIT Init
NEXT Next
INVARIANT Laws
