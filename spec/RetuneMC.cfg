INIT Init
NEXT Next
CONSTANTS Keep = FALSE  Depth = 4
INVARIANT TargetLaw
INVARIANT IdempotentLaw
