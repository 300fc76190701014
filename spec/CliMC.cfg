INIT Init
NEXT Next
CONSTANTS Depth = 2
 Wide = FALSE
INVARIANT Closed
PROPERTY Keeps
