CONSTANTS
 Ad <- Signed
 Occ = {0, 10, 25}
 Volts <- VoltSet
INIT Init
NEXT Next
INVARIANTS Linear Swap
