INIT Init
NEXT Next
CONSTANT Family = "control"
CONSTANT Full = FALSE
INVARIANT StackOK
INVARIANT FilterRestored
INVARIANT LoopSignalsCaught
INVARIANT Terminates
INVARIANT ObjectsApart
INVARIANT CallerUntouched
