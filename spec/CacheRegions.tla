---------------------------- MODULE CacheRegions ----------------------------
(***************************************************************************)
(* Cache regions (#cache blocks and cached placeholders) of template       *)
(* objects.  A template is a sequence of nodes:                            *)
(*   [k: "text", s]          literal text                                  *)
(*   [k: "ev", name]         evaluates: yields name and the number of      *)
(*                           evaluations so far, or raises if name is in   *)
(*                           the rendering's fail list                     *)
(*   [k: "loop", vals, body] renders body with v = each of vals            *)
(*   [k: "try", body]        renders body; on an exception adds "!"        *)
(*   [k: "cache", r, num, unit, vary, test, body]                          *)
(*        region r; refresh interval num/10 units (num = 0: none);         *)
(*        vary: one copy per value of v; test: evaluate again when tst     *)
(* State: the clock (ms), the evaluation counter and, per object, region   *)
(* and vary-by value, the cached text with its expiry time.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

UnitMs(u) == CASE u = "s" -> 1000 [] u = "m" -> 60000 [] u = "" -> 60000
               [] u = "h" -> 3600000 [] u = "d" -> 86400000
               [] u = "w" -> 604800000
IntervalMs(n) == n.num * (UnitMs(n.unit) \div 10)

RInit(cfg) == [t |-> cfg.tmpl, now |-> 0, cnt |-> 0, items |-> <<>>]

PutItem(items, key, it) ==
  [x \in DOMAIN items \cup {key} |-> IF x = key THEN it ELSE items[x]]
DropItems(items, D) == [x \in DOMAIN items \ D |-> items[x]]

RECURSIVE RSeq(_, _, _), RNode(_, _, _), RLoop(_, _, _, _)

\* env: [i, now, tst, fail]; s: [items, cnt, out, exc, v]; the loop variable v
\* is an ordinary local variable, so it keeps its last value after the loop
RSeq(ns, env, s) ==
  IF ns = <<>> \/ s.exc THEN s ELSE RSeq(Tail(ns), env, RNode(Head(ns), env, s))

RLoop(vals, body, env, s) ==
  IF vals = <<>> \/ s.exc THEN s
  ELSE RLoop(Tail(vals), body, env, RSeq(body, env, [s EXCEPT !.v = Head(vals)]))

RNode(n, env, s) ==
  CASE n.k = "text" -> [s EXCEPT !.out = @ \o n.s]
    [] n.k = "ev" ->
         LET c == s.cnt + 1 IN
         IF \E j \in DOMAIN env.fail : env.fail[j] = n.name
         THEN [s EXCEPT !.cnt = c, !.exc = TRUE]
         ELSE [s EXCEPT !.cnt = c, !.out = @ \o n.name \o ToString(c) \o ";"]
    [] n.k = "loop" -> RLoop(n.vals, n.body, env, s)
    [] n.k = "try" ->
         LET s2 == RSeq(n.body, env, s) IN
         IF s2.exc THEN [s2 EXCEPT !.exc = FALSE, !.out = @ \o "!"] ELSE s2
    [] n.k = "cache" ->
         LET key == <<env.i, n.r, IF n.vary THEN s.v ELSE n.r>>
             live == /\ key \in DOMAIN s.items
                     /\ s.items[key].e = 0 \/ env.now <= s.items[key].e
             hit == live /\ ~(n.test /\ env.tst)
         IN IF hit THEN [s EXCEPT !.out = @ \o s.items[key].d]
            ELSE LET s2 == RSeq(n.body, env, [s EXCEPT !.out = ""])
                     e == IF n.num = 0 THEN 0 ELSE env.now + IntervalMs(n)
                 IN IF s2.exc THEN [s2 EXCEPT !.out = s.out]
                    ELSE [s2 EXCEPT !.out = s.out \o s2.out,
                            !.items = PutItem(s2.items, key,
                                              [d |-> s2.out, e |-> e])]

\* operations: [op, t, i, v, tst, fail, r, item]
RApply(st, o) ==
  CASE o.op = "tick" -> {[st |-> [st EXCEPT !.now = @ + o.t], resp |-> "ok"]}
    [] o.op = "render" ->
         LET s == RSeq(st.t, [i |-> o.i, now |-> st.now,
                              tst |-> o.tst, fail |-> o.fail],
                       [items |-> st.items, cnt |-> st.cnt, out |-> "",
                        exc |-> FALSE, v |-> o.v])
         IN {[st |-> [st EXCEPT !.items = s.items, !.cnt = s.cnt],
              resp |-> IF s.exc THEN "exc:Boom" ELSE "out:" \o s.out]}
    [] o.op = "refresh" ->
         LET D == {key \in DOMAIN st.items :
                     /\ key[1] = o.i
                     /\ o.r = "" \/ key[2] = o.r
                     /\ o.r = "" \/ o.item = "" \/ key[3] = o.item}
         IN {[st |-> [st EXCEPT !.items = DropItems(@, D)], resp |-> "ok"]}
    [] OTHER -> {}
=============================================================================
