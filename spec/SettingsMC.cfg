INIT Init
NEXT Next
CONSTANTS Depth = 2
 PLen = 2
INVARIANT Alone
PROPERTY Untouched
