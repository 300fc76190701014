--------------------------- MODULE WebInputTrace ---------------------------
EXTENDS WebInput, Json, IOUtils
VARIABLES h, l, st
TraceCases == ndJsonDeserialize(IOEnv.CASES)
J == INSTANCE Judge WITH Cases <- TraceCases, InitSt <- WebInit, Apply <- WebApply
Init == J!JInit
Next == J!JNext
=============================================================================
