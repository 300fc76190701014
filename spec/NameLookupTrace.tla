--------------------------- MODULE NameLookupTrace ---------------------------
EXTENDS NameLookup, IOUtils, Json
VARIABLES h, l, st
TheCases == ndJsonDeserialize(IOEnv.CASES)
J == INSTANCE Judge WITH Cases <- TheCases
Init == J!JInit
Next == J!JNext
=============================================================================
