------------------------------- MODULE HookMC -------------------------------
(* Histories over a template and a module of one name, in two directories  *)
(* and in a package; the hook comes and goes.                              *)
EXTENDS Hook
CONSTANTS Depth
VARIABLES cfg, st, ops, resps
X(t, f) == [t |-> t, f |-> f, imps |-> <<>>, tm |-> SubSeq(t, 1, 1) = "T"]
W(l, k, c) == [loc |-> l, k |-> k, c |-> c]
L1 == <<"1", "a">>
L2 == <<"2", "a">>
LP == <<"1", "p", "a">>
MCfgs == {[init |-> << W(<<"1", "p", "__init__">>, "py", X("Y1", "ok")),
                       W(L1, "tmpl", X("T2", "ok")), W(L2, k, X("T3", "ok")),
                       W(LP, "tmpl", [X("T4", "ok") EXCEPT !.imps = i]) >>,
           cache |-> FALSE, ro |-> FALSE] :
            k \in {"tmpl"},
            i \in {<<>>, << [lv |-> 0, mod |-> <<"a">>, name |-> ""] >>,
                   << [lv |-> 2, mod |-> <<>>, name |-> "a"] >>}}
Mods == {<<"a">>, <<"p", "a">>}
MOps(c, s, n) ==
  {[op |-> "install", exts |-> <<"tmpl">>], [op |-> "uninstall"]}
  \cup {[op |-> "import", name |-> m] : m \in Mods}
  \cup {[op |-> "call", name |-> <<"p", "a">>], [op |-> "from", name |-> <<"p">>, n |-> "a"]}
  \cup {[op |-> "forget", name |-> m] : m \in {<<"a">>, <<"p">>, <<"p", "a">>}}
  \cup {[op |-> "write", loc |-> l, k |-> k, mt |-> mt,
         c |-> X((IF k = "py" THEN "Y" ELSE "T") \o ToString(10 + n), f)] :
          l \in {L1, LP}, k \in {"py", "tmpl"}, mt \in {"old"}, f \in {"ok", "exc"}}
  \cup {[op |-> "remove", loc |-> l, k |-> k] : l \in {L1, LP}, k \in {"py", "pyc", "tmpl"}}
E == INSTANCE Explore WITH Cfgs <- MCfgs, InitSt <- HookInit, Apply <- HookApply,
                           Ops <- MOps, Depth <- Depth, EmitAll <- FALSE
Init == E!EInit
Next == E!ENext

\* Design: importing never changes a source; every loaded module came from a
\* text which is or was there; a
\* failed import leaves no module half loaded; without the hook no Python
\* module is made.
Sane == \A n \in DOMAIN st.mods : st.mods[n].done
Keeps == [][LET o == ops'[Len(ops')] IN
            o.op \in {"import", "call", "from"} =>
              \A l \in LocSet : /\ st'.fs[l].tmpl = st.fs[l].tmpl
                                /\ st.fs[l].py # None => st'.fs[l].py = st.fs[l].py
                                /\ ~st.hook => st'.fs[l].py = st.fs[l].py
                                /\ \A n \in DOMAIN st.mods : n \in DOMAIN st'.mods]_<<st, ops>>
=============================================================================
