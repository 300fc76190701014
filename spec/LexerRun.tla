------------------------------ MODULE LexerRun ------------------------------
(* What given (long) templates must render to. *)
EXTENDS Lexer, IOUtils, Json, Emit
VARIABLES h, st
Cases == ndJsonDeserialize(IOEnv.CASES)
Init == h \in 1..Len(Cases) /\ st = Begin
\* the machine reads template h, construct by construct
Next == /\ st.fl = "run"
        /\ st' = Step(Cases[h].src, st)
        /\ h' = h
        /\ st'.fl # "run" => Emit([h |-> h, fl |-> st'.fl, out |-> st'.out])
=============================================================================
