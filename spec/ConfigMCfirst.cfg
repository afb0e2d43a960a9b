INIT Init
NEXT Next
CONSTANTS Factor2 = 3  R = 24
INVARIANT NotStuck
INVARIANT CoverLaw
INVARIANT ChainLaw
INVARIANT RelLaw
INVARIANT QualityLaw
