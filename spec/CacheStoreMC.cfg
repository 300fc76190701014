INIT Init
NEXT Next
CONSTANTS Depth = 3
 NStores = 2
 Keys = {"a", "b"}
INVARIANTS TypeOK ReadsLastWrite
PROPERTY Isolation
