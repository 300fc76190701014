INIT Init
NEXT Next
CONSTANTS Depth = 1
INVARIANT Expanded
