----------------------------- MODULE SettingsMC -----------------------------
(* Two compilations: the first any short template of settings directives   *)
(* and probes under any of the given settings, the second showing what is  *)
(* left of it; replayed in the code.                                       *)
EXTENDS Settings
CONSTANTS Depth, PLen
VARIABLES cfg, st, ops, resps
P == [i |-> "probe"]
Set(k, v) == [i |-> "set", k |-> k, v |-> v, s |-> None]
Blk(f, s) == [i |-> "block", form |-> f, s |-> s]
Items == {P, Set("var", "@"), Set("com", "//"), Set("auto", "F"), Set("mark", "T"),
          [i |-> "set", k |-> "macro", v |-> "", s |-> [None EXCEPT !.m2 = "f2"]],
          Blk("config", [None EXCEPT !.filt = "F", !.m1 = "f1"]),
          Blk("python", [None EXCEPT !.m1 = "f2", !.dir = "^"]),
          Blk("config", [None EXCEPT !.dir = "^"]),
          [i |-> "reset", form |-> "c"], [i |-> "reset", form |-> "s"],
          [i |-> "defmacro"]}
AllProgs == {<<a, P>> : a \in Items} \cup {<<a, P, b, P>> : a, b \in Items}
         \cup (IF PLen > 2 THEN {<<a, b, c, P>> : a, b, c \in Items} ELSE {})
\* (a macro cannot be defined twice)
Progs == {p \in AllProgs : Cardinality({i \in 1..Len(p) : p[i].i = "defmacro"}) <= 1}
C(api, set, how, p) == [op |-> "compile", api |-> api, set |-> set, how |-> how, prog |-> p]
MCfgs == {[D1 |-> [None EXCEPT !.m1 = "f1", !.var = "@", !.dm = "D2"],
           D2 |-> [None EXCEPT !.m2 = "f2", !.com = "//"]]}
MOps(c, s, n) ==
  IF n = 0 THEN {C("T", x, h, p) : x \in {"", "D1"}, h \in {"compile"}, p \in Progs}
                \cup {C("K", "", "inst", p) : p \in Progs}
  ELSE {C("T", "", "compile", <<P>>), C("T", "D1", "inst", <<P>>),
        C("K", "", "compile", <<P>>), [op |-> "render", n |-> 1]}
E == INSTANCE Explore WITH Cfgs <- MCfgs, InitSt <- SInit, Apply <- SApply,
                           Ops <- MOps, Depth <- Depth, EmitAll <- FALSE
Init == E!EInit
Next == E!ENext
\* Design: only the user changes the user's dictionaries.
Untouched == [][st'.d = st.d]_<<st, ops>>
\* Design: the second of two compilations answers as it would alone.
Alone == Len(ops) = 2 /\ ops[2].op = "compile" =>
  resps[2].out = (CHOOSE r \in SApply(SInit(cfg), ops[2]) : TRUE).resp.out
=============================================================================
