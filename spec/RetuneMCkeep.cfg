INIT Init
NEXT Next
CONSTANTS Keep = TRUE  Depth = 4
INVARIANT TargetLaw
INVARIANT IdempotentLaw
