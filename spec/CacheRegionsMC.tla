--------------------------- MODULE CacheRegionsMC ---------------------------
(* Exhaustive exploration of the cache design over a catalogue of templates *)
(* and all short histories; the histories are replayed in the code.         *)
EXTENDS CacheRegions, Json, IOUtils
CONSTANTS Depth
VARIABLES cfg, st, ops, resps
Catalogue == ndJsonDeserialize(IOEnv.CATALOGUE)
MCfgs == {Catalogue[j] : j \in DOMAIN Catalogue}
Base == [op |-> "tick", t |-> 1, i |-> 1, v |-> "p", tst |-> FALSE,
         fail |-> <<>>, r |-> "", item |-> ""]
MOps(c, s, n) ==
  {[Base EXCEPT !.t = t] : t \in {1001, 120001}} \cup
  {[Base EXCEPT !.op = "render", !.i = i, !.v = v, !.tst = b, !.fail = f] :
     i \in 1..2, v \in {"p", "q"}, b \in BOOLEAN, f \in {<<>>, <<"a">>}} \cup
  {[Base EXCEPT !.op = "refresh", !.i = i, !.r = r] :
     i \in 1..2, r \in {"", "r1", "r9"}} \cup
  {[Base EXCEPT !.op = "refresh", !.i = 1, !.r = "r1", !.item = it] :
     it \in {"p", "r1"}}
E == INSTANCE Explore WITH Cfgs <- MCfgs, InitSt <- RInit, Apply <- RApply,
                           Ops <- MOps, Depth <- Depth, EmitAll <- FALSE
Init == E!EInit
Next == E!ENext
----------------------------------------------------------------------------
LastOp == ops[Len(ops)]
\* what is cached for an object is changed only by operations on that object
Isolation == [][\A key \in DOMAIN st.items \cup DOMAIN st'.items :
                  key[1] # ops'[Len(ops')].i =>
                     /\ key \in DOMAIN st.items /\ key \in DOMAIN st'.items
                     /\ st.items[key] = st'.items[key]]_<<st, ops>>
\* after a refresh of everything nothing of the object is cached
RefreshClears == Len(ops) > 0 /\ LastOp.op = "refresh" /\ LastOp.r = "" =>
                   \A key \in DOMAIN st.items : key[1] # LastOp.i
\* time never makes a cached text change, only expire
TickKeeps == [][ops' # ops /\ ops'[Len(ops')].op = "tick" =>
                  st'.items = st.items]_<<st, ops>>
=============================================================================
