INIT Init
NEXT Next
CONSTANT Values = {0, 1, 2, 10, 100, 110, 300, 390, 400, 410, 690, 700, 710, 1000, 5000, 29990, 30000}
INVARIANTS Bounds Closed ClosedExactly Symmetric Monotone Open AreaLaw RampLaw
