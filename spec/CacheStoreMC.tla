---------------------------- MODULE CacheStoreMC ----------------------------
(* Exhaustive design check and behaviour generation for the store.          *)
EXTENDS CacheStore
CONSTANTS Depth, NStores, Keys
VARIABLES cfg, st, ops, resps
MCfgs == {[now |-> 100, stores |-> NStores, kind |-> k] :
            k \in {"memory", "memcached"}}
Base == [op |-> "tick", i |-> 1, k |-> "a", v |-> "x", t |-> 0]
MOps(c, s, n) ==
  {[Base EXCEPT !.t = 2]} \cup
  {[Base EXCEPT !.op = o, !.i = i, !.k = k, !.v = ToString(n), !.t = t] :
     o \in {"set", "add", "replace"}, i \in 1..c.stores, k \in Keys,
     t \in {0, 101}} \cup
  {[Base EXCEPT !.op = o, !.i = i, !.k = k] :
     o \in {"get", "delete"}, i \in 1..c.stores, k \in Keys} \cup
  {[Base EXCEPT !.op = "clear", !.i = i] : i \in 1..c.stores}
E == INSTANCE Explore WITH Cfgs <- MCfgs, InitSt <- SInit, Apply <- SApply,
                           Ops <- MOps, Depth <- Depth, EmitAll <- FALSE
Init == E!EInit
Next == E!ENext

----------------------------------------------------------------------------
\* Properties of the design (checked in every state / on every step)
Last(s) == s[Len(s)]
TypeOK == /\ st.now \in Nat
          /\ \A i \in DOMAIN st.s : \A k \in DOMAIN st.s[i] :
                /\ k \in Keys /\ st.s[i][k].e \in Nat
\* a value read back is the one last stored under that key in that store
ReadsLastWrite ==
  Len(ops) > 0 /\ Last(ops).op = "get" /\ Last(resps) # "KeyError" =>
    LET n == Len(ops)
        W == {j \in 1..(n - 1) : /\ ops[j].i = ops[n].i /\ ops[j].k = ops[n].k
                                 /\ ops[j].op \in {"set", "add", "replace"}
                                 /\ resps[j] = "ok"}
    IN W # {} /\ LET j == CHOOSE x \in W : \A y \in W : y <= x IN
         /\ Last(resps) = "val:" \o ops[j].v
         /\ ops[j].t = 0 \/ st.now <= ops[j].t
\* stores do not affect each other; failed operations change nothing
Isolation ==
  [][\A i \in DOMAIN st.s :
       i # Last(ops').i \/ Last(ops').op = "tick" \/
       (Last(resps') = "Error") => st'.s[i] = st.s[i]]_<<st, ops>>
=============================================================================
