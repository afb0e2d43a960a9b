CONSTANTS Steps = 4 Vals = {0, 1, 2} Copy = FALSE
INIT Init
NEXT Next
INVARIANT Refines
