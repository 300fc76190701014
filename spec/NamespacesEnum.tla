--------------------------- MODULE NamespacesEnum ---------------------------
(* Every set of namespaces that can hold a name at the same time, every kind *)
(* of value in the nearest and in the others, asked bare and dotted, before  *)
(* and after the holders disappear one by one.                               *)
EXTENDS Namespaces, Emit
VARIABLES c, done
Places == {"loc", "glob", "own", "cls", "sl1", "sl2", "mod"}
\* values 1..7 are those of the places; 8, 9 plain values inside holders
No(p) == CASE p = "loc" -> 1 [] p = "glob" -> 2 [] p = "own" -> 3 [] p = "cls" -> 4
           [] p = "sl1" -> 5 [] p = "sl2" -> 6 [] OTHER -> 7
Kinds == {"v", "h", "e", "f", "g"}
Val(k) == CASE k = "v" -> [k |-> "v", p |-> Nothing]
            [] k = "h" -> [k |-> "h", p |-> "m" :> 8]
            [] k = "e" -> [k |-> "h", p |-> "other" :> 8]
            [] k = "f" -> [k |-> "f", p |-> "ret" :> 9]
            [] OTHER -> [k |-> "f", p |-> "ret" :> 10]
Rec(S, n, p) == IF p \in S THEN n :> No(p) ELSE Nothing
Q(s, n, m, v) == [s |-> s, n |-> n, m |-> m, v |-> v]
Cfg(S, n, kf, kr, prio, ac, near) ==
  LET body == (IF "glob" \in S THEN <<Q("gset", n, "", 2)>> ELSE <<>>) \o
              (IF "loc" \in S THEN <<Q("set", n, "", 1)>> ELSE <<>>) \o
              <<Q("ask", n, "", 0), Q("ask", n, "m", 0), Q("has", n, "", 0), Q("has", n, "m", 0),
                Q("get", n, "m", 0), Q("call", "other", "", 9)>> \o
              (IF "loc" \in S THEN <<Q("del", n, "", 0), Q("ask", n, "", 0)>> ELSE <<>>)
  IN [vals |-> [j \in 1..10 |-> IF j = 8 \/ j = 9 THEN Val("v") ELSE IF j = 10 THEN Val("h")
                 ELSE IF j = near THEN Val(kf) ELSE Val(kr)],
      pool |-> <<"dict", "obj">>, cls |-> Rec(S, n, "cls"), mod |-> Rec(S, n, "mod"),
      meths |-> [main |-> [p |-> "", body |-> body],
                 other |-> [p |-> "w", body |-> <<Q("ask", n, "", 0)>>]],
      prio |-> prio, ac |-> ac, stack |-> TRUE]
B == [op |-> "", i |-> 1, n |-> "", m |-> "", v |-> 0, sl |-> <<>>]
Ops(S, n) ==
  (IF "sl1" \in S THEN <<[B EXCEPT !.op = "put", !.i = 1, !.n = n, !.v = 5]>> ELSE <<>>) \o
  (IF "sl2" \in S THEN <<[B EXCEPT !.op = "put", !.i = 2, !.n = n, !.v = 6]>> ELSE <<>>) \o
  <<[B EXCEPT !.op = "new", !.sl = <<1, 2>>], [B EXCEPT !.op = "new", !.sl = <<2>>]>> \o
  (IF "own" \in S THEN <<[B EXCEPT !.op = "iset", !.n = n, !.v = 3]>> ELSE <<>>) \o
  <<[B EXCEPT !.op = "has", !.n = n], [B EXCEPT !.op = "get", !.n = n, !.m = "m"],
    [B EXCEPT !.op = "render"], [B EXCEPT !.op = "render", !.i = 2],
    [B EXCEPT !.op = "has", !.n = n], [B EXCEPT !.op = "get", !.n = n, !.v = 1]>> \o
  (IF "own" \in S THEN <<[B EXCEPT !.op = "idel", !.n = n], [B EXCEPT !.op = "render"]>> ELSE <<>>) \o
  (IF "sl1" \in S THEN <<[B EXCEPT !.op = "rm", !.i = 1, !.n = n], [B EXCEPT !.op = "render"]>> ELSE <<>>)
RECURSIVE RunOps(_, _)
RunOps(st, ops) == IF ops = <<>> THEN <<>>
                   ELSE LET r == CHOOSE x \in Apply(st, Head(ops)) : TRUE
                        IN <<r.resp>> \o RunOps(r.st, Tail(ops))
Init == /\ c \in {[S |-> S, n |-> n, kf |-> kf, kr |-> kr, prio |-> prio, ac |-> ac, near |-> near] :
                  S \in SUBSET Places, n \in {"x", "Ellipsis"}, kf \in Kinds, kr \in {"v", "h"},
                  prio \in BOOLEAN, ac \in BOOLEAN, near \in 1..7}
        /\ \E p \in c.S : No(p) = c.near
        /\ (c.kf \in {"f", "g"} => c.ac)
        /\ ~c.ac => c.kf = "v" /\ c.kr = "v"
        /\ c.kf # c.kr
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ c' = c
        /\ LET cfg == Cfg(c.S, c.n, c.kf, c.kr, c.prio, c.ac, c.near)
               ops == Ops(c.S, c.n) IN
           Emit([cfg |-> cfg, ops |-> ops, obs |-> RunOps(InitSt(cfg), ops)])
=============================================================================
