----------------------------- MODULE WebInputMC -----------------------------
(* Every request of at most two fields of one name, every way of asking.   *)
EXTENDS WebInput
CONSTANTS Depth, Vs
VARIABLES cfg, st, ops, resps
Fs == [k : {"a", "a:int"}, v : Vs, up : {FALSE}]
MCfgs == {[fields |-> f, method |-> m] :
            f \in {<<>>} \cup {<<x>> : x \in Fs} \cup {<<x, y>> : x \in Fs, y \in Fs},
            m \in {"get"}}
Qs == [n : {"a"}, conv : {"", "int", "float", "x"}, colon : {TRUE}, multi : BOOLEAN]
      \cup [n : {"a", "b"}, conv : {""}, colon : {FALSE}, multi : BOOLEAN]
MOps(c, s, n) ==
  {[op |-> "fetch", qs |-> <<q>>, src |-> "f", default |-> "s:D", defaultInt |-> d,
    defaultFloat |-> "f:2.5", badInt |-> b, badFloat |-> b, debug |-> FALSE] :
     q \in Qs, d \in {"i:5", "!KeyError"}, b \in {"n:None", "!NonNumericInputError"}}
E == INSTANCE Explore WITH Cfgs <- MCfgs, InitSt <- WebInit, Apply <- WebApply,
                           Ops <- MOps, Depth <- Depth, EmitAll <- TRUE
Init == E!EInit
Next == E!ENext

\* Design: only the requested names change, and only when nothing is raised
Only == [][LET o == ops'[Len(ops')] IN
           \A i \in 1..Len(Names) :
             Lookup(st'.sl, Names[i]) # Lookup(st.sl, Names[i]) =>
               /\ \E j \in 1..Len(o.qs) : o.qs[j].n = Names[i]
               /\ resps'[Len(resps')].r = "ok"]_<<st, ops>>
=============================================================================
