CONSTANTS Fault = "none"
 G = {0, 2}
 Crossed = FALSE
INIT Init
NEXT Next
INVARIANT Law
INVARIANT Complete
