------------------------- MODULE CompileCacheTrace -------------------------
EXTENDS CompileCache, Json, IOUtils
VARIABLES h, l, st
TraceCases == ndJsonDeserialize(IOEnv.CASES)
J == INSTANCE Judge WITH Cases <- TraceCases, InitSt <- CInit, Apply <- CApply
Init == J!JInit
Next == J!JNext
=============================================================================
