INIT Init
NEXT Next
CONSTANTS Depth = 3
INVARIANTS Sound Bounded
