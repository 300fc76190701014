------------------------- MODULE CacheRegionsTrace -------------------------
EXTENDS CacheRegions, Json, IOUtils
VARIABLES h, l, st
TraceCases == ndJsonDeserialize(IOEnv.CASES)
J == INSTANCE Judge WITH Cases <- TraceCases, InitSt <- RInit, Apply <- RApply
Init == J!JInit
Next == J!JNext
=============================================================================
