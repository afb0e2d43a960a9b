CONSTANTS Slopes = {1, 2, 3}
          Lens = {4, 5, 7, 9}
          Dists = {0, 1, 2, 3}
INIT Init
NEXT Next
INVARIANTS Bracket Continuous Periodic Meets Limited Exact Inside SideMono
