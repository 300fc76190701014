INIT Init
NEXT Next
CONSTANTS Depth = 2
PROPERTY Locals
PROPERTY Caller
