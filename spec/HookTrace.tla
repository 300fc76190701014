----------------------------- MODULE HookTrace -----------------------------
EXTENDS Hook, Json, IOUtils
VARIABLES h, l, st
TraceCases == ndJsonDeserialize(IOEnv.CASES)
J == INSTANCE Judge WITH Cases <- TraceCases, InitSt <- HookInit, Apply <- HookApply
Init == J!JInit
Next == J!JNext
=============================================================================
