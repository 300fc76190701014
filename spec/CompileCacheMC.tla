--------------------------- MODULE CompileCacheMC ---------------------------
(* All pairs of requests differing from a base request in at most two      *)
(* respects each, replayed in the code, and the properties of the design.  *)
EXTENDS CompileCache
CONSTANTS Depth
VARIABLES cfg, st, ops, resps
Base == [op |-> "compile", src |-> "c1", file |-> "", dir |-> "", t |-> 0,
         cls |-> "", mod |-> "", main |-> "", settings |-> "", base |-> "",
         glob |-> "", pre |-> "none", api |-> "T", keep |-> "", use |-> ""]
Dom == [src |-> {"c2"}, cls |-> {"Na", "Nab"}, mod |-> {"bNc", "Nc"},
        main |-> {"mm", "nn"}, settings |-> {"pc", "pc2", "ex"},
        base |-> {"b1", "b2"}, glob |-> {"1", "True", "1.0", "-1", "-2", "'1'"},
        pre |-> {"x1", "x2"}, api |-> {"M"}, op |-> {"source"}]
One == {[Base EXCEPT ![f] = v] : <<f, v>> \in
          UNION {{<<f, v>> : v \in Dom[f]} : f \in DOMAIN Dom}}
Two == UNION {{[r EXCEPT ![f] = v] : r \in One} : <<f, v>> \in
          UNION {{<<f, v>> : v \in Dom[f]} : f \in {"cls", "mod", "main",
                                                    "glob", "base"}}}
FileReqs == {[Base EXCEPT !.src = "", !.file = "f1", !.keep = k, !.pre = p] :
               k \in {"", "n"}, p \in {"none", "x1"}}
FileOps(n) == {[Base EXCEPT !.op = "cd", !.dir = d] : d \in {"d1", "d2"}} \cup
           {[Base EXCEPT !.op = "write", !.dir = "d1", !.file = "f1",
             !.src = "w" \o ToString(n), !.t = t] : t \in {900 - n, 1100 + n}}
MCfgs == {[k |-> "req"], [k |-> "file"]}
MOps(c, s, n) == IF c.k = "req" THEN IF n >= 2 THEN {} ELSE {Base} \cup One \cup Two
                 ELSE FileReqs \cup FileOps(n)
E == INSTANCE Explore WITH Cfgs <- MCfgs, InitSt <- CInit, Apply <- CApply,
                           Ops <- MOps, Depth <- Depth, EmitAll <- TRUE
Init == E!EInit
Next == E!ENext

\* Design: a class in the store is only ever given to requests of its own key,
\* and numbers are never reused.
Sound == \A k1, k2 \in DOMAIN st.cache : st.cache[k1] = st.cache[k2] => k1 = k2
Bounded == \A k \in DOMAIN st.cache : st.cache[k] \in 1..st.n
=============================================================================
