CONSTANTS Fault = "swapped"
 G = {0, 2}
 Crossed = TRUE
INIT Init
NEXT Next
INVARIANT Law
INVARIANT Complete
