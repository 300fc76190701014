---------------------------- MODULE AssignTrace ----------------------------
EXTENDS Assign, Json, IOUtils
VARIABLES h, l, st
TraceCases == ndJsonDeserialize(IOEnv.CASES)
J == INSTANCE Judge WITH Cases <- TraceCases, InitSt <- AssignInit, Apply <- AssignApply
Init == J!JInit
Next == J!JNext
=============================================================================
