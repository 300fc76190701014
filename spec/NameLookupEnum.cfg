CONSTANTS Wide = FALSE
INIT Init
NEXT Next
INVARIANTS NoFnNoCall
CHECK_DEADLOCK FALSE
