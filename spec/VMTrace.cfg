INIT Init
NEXT Next
INVARIANTS StackOK FilterRestored LoopSignalsCaught
