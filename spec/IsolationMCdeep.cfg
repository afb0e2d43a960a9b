CONSTANTS Steps = 5 Vals = {0, 1, 2} Copy = TRUE
INIT Init
NEXT Next
INVARIANT Refines
INVARIANT NotShared
