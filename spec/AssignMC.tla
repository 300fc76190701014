------------------------------ MODULE AssignMC ------------------------------
(* Every program of one assignment to a path of at most two elements,       *)
(* between readings, and what a second run of the method sees of it.        *)
EXTENDS Assign, FiniteSets
CONSTANTS Depth
VARIABLES cfg, st, ops, resps
R(n) == [t |-> "r", v |-> n]
Heap0 == <<[t |-> "dict", f |-> ("a" :> R(2)) @@ ("b" :> Num(1))],
           [t |-> "list", f |-> ("0" :> R(3)) @@ ("1" :> Num(2))],
           [t |-> "obj",  f |-> ("a" :> Num(3)) @@ ("b" :> R(1))]>>
MCfgs == {[heap |-> Heap0, ns |-> ("d" :> R(1)) @@ ("l" :> R(2)) @@ ("o" :> R(3))]}
Els == {[m |-> ".", n |-> "a"], [m |-> "[", n |-> "a"], [m |-> "[", n |-> "0"],
        [m |-> ".", n |-> "b"]}
Paths == {<<>>} \cup {<<x>> : x \in Els} \cup {<<x, y>> : x \in Els, y \in Els}
S(g, x, p, op, e) == [k |-> "set", g |-> g, x |-> x, path |-> p, op |-> op, e |-> e]
C(n) == [k |-> "i", v |-> n]
P(x) == [k |-> "p", x |-> x, path |-> <<>>]
Rd(x, p) == [k |-> "read", x |-> x, path |-> p]
MOps(c, s, n) ==
  IF n = 0
  THEN {[op |-> "run",
    prog |-> <<S(g1, "x", <<>>, "=", P(y)), S(g2, "x", p, op, C(7)), Rd("x", p)>>] :
      g1 \in BOOLEAN, g2 \in BOOLEAN, y \in {"d", "l", "o"}, p \in Paths, op \in {"=", "+="}}
  ELSE {[op |-> "run", prog |-> <<Rd(y, p)>>] : y \in {"x", "d", "o"}, p \in Paths}
E == INSTANCE Explore WITH Cfgs <- MCfgs, InitSt <- AssignInit, Apply <- AssignApply,
                           Ops <- MOps, Depth <- Depth, EmitAll <- TRUE
Init == E!EInit
Next == E!ENext

\* Design: what a method sets for itself leaves the object's variables alone,
\* and the caller's namespace is never rebound
Locals == [][(\A j \in 1..Len(ops'[Len(ops')].prog) :
                LET q == ops'[Len(ops')].prog[j] IN q.k = "set" => ~q.g)
             => st'.glob = st.glob]_<<st, ops>>
Caller == [][st'.ns = st.ns]_<<st, ops>>
=============================================================================
