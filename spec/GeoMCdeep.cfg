INIT Init
NEXT Next
CONSTANT K = 3
INVARIANT BelowLaw
INVARIANT CrossLaw
INVARIANT ParallelLaw
INVARIANT CircleLaw
INVARIANT CentreLaw
INVARIANT RotLaw
INVARIANT DistLaw
INVARIANT CdfLaw
