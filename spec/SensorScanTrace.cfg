INIT Init
NEXT Next
INVARIANT Report
