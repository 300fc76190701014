---------------------------- MODULE GuardTrace ----------------------------
EXTENDS Guard, Json, IOUtils
VARIABLES h, l, st
TraceCases == ndJsonDeserialize(IOEnv.CASES)
J == INSTANCE Judge WITH Cases <- TraceCases, InitSt <- GInit, Apply <- GApply
Init == J!JInit
Next == J!JNext
=============================================================================
