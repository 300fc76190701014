--------------------------- MODULE SettingsTrace ---------------------------
EXTENDS Settings, Json, IOUtils
VARIABLES h, l, st
TraceCases == ndJsonDeserialize(IOEnv.CASES)
J == INSTANCE Judge WITH Cases <- TraceCases, InitSt <- SInit, Apply <- SApply
Init == J!JInit
Next == J!JNext
=============================================================================
