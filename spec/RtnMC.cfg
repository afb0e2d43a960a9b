CONSTANTS Pixels = 7
          Heights = {3, 5}
INIT Init
NEXT Next
INVARIANTS Sound Complete
