CONSTANTS
 Lo = 2
 Hi = 9
 Widths <- Ws
INIT Init
NEXT Next
INVARIANTS Inside Narrow Whole
