----------------------------- MODULE CliTrace -----------------------------
EXTENDS Cli, Json, IOUtils
VARIABLES h, l, st
TraceCases == ndJsonDeserialize(IOEnv.CASES)
J == INSTANCE Judge WITH Cases <- TraceCases, InitSt <- CliInit, Apply <- CliApply
Init == J!JInit
Next == J!JNext
=============================================================================
