CONSTANTS Slopes = {1, 2}
          Lens = {4, 7}
          Dists = {0, 1, 2}
INIT Init
NEXT Next
INVARIANTS Bracket Continuous Periodic Meets Limited Exact Inside SideMono
