CONSTANTS Steps = 5 Reqs = {1, 2, 3} Bad = {3} Leak = TRUE Shared = FALSE Early = FALSE
INIT Init
NEXT Next
INVARIANT Refines
CHECK_DEADLOCK FALSE
