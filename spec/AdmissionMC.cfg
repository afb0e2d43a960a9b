INIT Init
NEXT Next
INVARIANT NeverOutside
INVARIANT DirectionIrrelevant
INVARIANT LimitsOnlyForbid SameForm
INVARIANT Emit
