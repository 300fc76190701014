---------------------------- MODULE MacrosTrace ----------------------------
EXTENDS Macros, Json, IOUtils
VARIABLES h, l, st
TraceCases == ndJsonDeserialize(IOEnv.CASES)
J == INSTANCE Judge WITH Cases <- TraceCases, InitSt <- MacInit, Apply <- MacApply
Init == J!JInit
Next == J!JNext
=============================================================================
