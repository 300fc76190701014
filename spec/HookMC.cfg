INIT Init
NEXT Next
CONSTANTS Depth = 3
INVARIANT Sane
PROPERTY Keeps
