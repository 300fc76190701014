----------------------------- MODULE CacheStore -----------------------------
(***************************************************************************)
(* The documented store protocol: a map from keys to (value, expiry time), *)
(* expiry 0 meaning never.  State: one map per store plus the clock.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

SInit(cfg) == [now |-> cfg.now,
               s |-> [i \in 1..cfg.stores |-> <<>>]]   \* <<>>: empty function

Has(m, k) == k \in DOMAIN m
Put(m, k, v, e) == [x \in DOMAIN m \cup {k} |->
                      IF x = k THEN [v |-> v, e |-> e] ELSE m[x]]
Drop(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Dead(st, m, k) == Has(m, k) /\ m[k].e # 0 /\ st.now > m[k].e

\* operations: [op, i (store), k, v, t]
SApply(st, o) ==
  LET m == st.s[o.i]
      ret(m2, r) == [st |-> [st EXCEPT !.s[o.i] = m2], resp |-> r]
      \* an expired entry nobody has read yet may count as present or absent
      views == IF Dead(st, m, o.k) THEN {m, Drop(m, o.k)} ELSE {m}
      add(mm) == IF Has(mm, o.k) THEN ret(mm, "Error")
                                 ELSE ret(Put(mm, o.k, o.v, o.t), "ok")
      repl(mm) == IF Has(mm, o.k) THEN ret(Put(mm, o.k, o.v, o.t), "ok")
                                  ELSE ret(mm, "Error")
      del(mm) == IF Has(mm, o.k) THEN ret(Drop(mm, o.k), "ok")
                                 ELSE ret(mm, "KeyError")
  IN CASE o.op = "tick" -> {[st |-> [st EXCEPT !.now = @ + o.t], resp |-> "ok"]}
       [] o.op = "set"  -> {ret(Put(m, o.k, o.v, o.t), "ok")}
       [] o.op = "add"  -> {add(mm) : mm \in views}
       [] o.op = "replace" -> {repl(mm) : mm \in views}
       [] o.op = "delete"  -> {del(mm) : mm \in views}
       [] o.op = "get" -> IF Has(m, o.k) /\ ~Dead(st, m, o.k)
                          THEN {ret(m, "val:" \o m[o.k].v)}
                          ELSE {ret(Drop(m, o.k), "KeyError")}
       [] o.op = "clear" -> {ret(<<>>, "ok")}
       [] OTHER -> {}
=============================================================================
