INIT Init
NEXT Next
INVARIANT PlaceLaw
INVARIANT SortLaw
INVARIANT UnsortedLaw
