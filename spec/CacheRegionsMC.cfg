INIT Init
NEXT Next
CONSTANTS Depth = 3
INVARIANT RefreshClears
PROPERTIES Isolation TickKeeps
