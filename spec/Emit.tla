-------------------------------- MODULE Emit --------------------------------
\* Output channel of the specifications: one line "@@<json>" per record,
\* which the harness reads back.
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE Sequences
Emit(rec) == PrintT("@@" \o ToJson(rec))
=============================================================================
