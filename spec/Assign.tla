------------------------------- MODULE Assign -------------------------------
(***************************************************************************)
(* Assignments to parts of values.  The heap holds containers (mappings,   *)
(* lists, objects); a value is an integer or a reference.  A program, run  *)
(* as one method of a template object, is a sequence of                    *)
(*   [k |-> "set", g, x, path, op, e]  #set (global if g) of x or, with a   *)
(*                                     path, of a part of what x holds      *)
(*   [k |-> "set2", x, y, a, b]        both at once                         *)
(*   [k |-> "del", x, path]            removal of a part                    *)
(*   [k |-> "read", x, path]           placeholder                          *)
(* Path elements: [m, n] with m = "." (attribute), "[" (item) or "v" (item  *)
(* named by the value of variable n).  Assignments go to the method's own   *)
(* variables or to the object's global ones and nowhere else; a placeholder *)
(* sees own variables, then the object's, then the caller's.  An error ends *)
(* the method; what was assigned before stays.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

No == [ok |-> FALSE, v |-> [t |-> "i", v |-> 0]]
Yes(v) == [ok |-> TRUE, v |-> v]
Num(n) == [t |-> "i", v |-> n]
Has(f, x) == x \in DOMAIN f
Bind(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Unbind(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* s: [heap, glob, ns, loc, out, err]
Var(s, x) == IF Has(s.loc, x) THEN Yes(s.loc[x])
             ELSE IF Has(s.glob, x) THEN Yes(s.glob[x])
             ELSE IF Has(s.ns, x) THEN Yes(s.ns[x]) ELSE No
Own(s, x) == IF Has(s.loc, x) THEN Yes(s.loc[x]) ELSE No

Size(n) == Cardinality(DOMAIN n.f)
Look(s, own, x) == IF own THEN Own(s, x) ELSE Var(s, x)

\* the key a path element stands for in node n; own: the variables of the
\* method only
Key(s, n, q, own) ==
  IF q.m # "v" THEN [ok |-> TRUE, k |-> q.n]
  ELSE LET i == Look(s, own, q.n) IN
       IF ~i.ok \/ i.v.t # "i" THEN [ok |-> FALSE, k |-> ""]
       ELSE [ok |-> TRUE, k |-> ToString(IF n.t = "list" /\ i.v.v < 0
                                         THEN i.v.v + Size(n) ELSE i.v.v)]

\* may q be used on node n?  (placeholders find the keys of mappings as
\* attributes, the targets of assignments do not)
Fits(n, q, own) == IF q.m = "." THEN n.t = "obj" \/ (~own /\ n.t = "dict")
                  ELSE n.t \in {"dict", "list"}

RECURSIVE Get(_, _, _, _)
Get(s, v, path, own) ==
  IF path = <<>> THEN Yes(v)
  ELSE IF v.t = "i" THEN No
  ELSE LET n == s.heap[v.v]
           q == Head(path)
           k == Key(s, n, q, own) IN
       IF ~Fits(n, q, own) \/ ~k.ok THEN No
       ELSE IF ~Has(n.f, k.k) THEN No
       ELSE Get(s, n.f[k.k], Tail(path), own)

Eval(s, e) ==
  IF e.k = "i" THEN Yes(Num(e.v))
  ELSE LET b == Var(s, e.x)
           r == IF b.ok THEN Get(s, b.v, e.path, FALSE) ELSE No IN
       IF e.k = "p" THEN r
       ELSE IF r.ok /\ r.v.t = "i" THEN Yes(Num(r.v.v + e.n)) ELSE No

Fail(s) == [s EXCEPT !.err = TRUE]
Op(op, a, b) == IF op = "=" THEN b
                ELSE Num(CASE op = "+=" -> a.v + b.v [] op = "-=" -> a.v - b.v
                           [] op = "*=" -> a.v * b.v)

Set(s, q) ==
  LET e == Eval(s, q.e)
      base == IF q.g THEN (IF Has(s.glob, q.x) THEN Yes(s.glob[q.x]) ELSE No)
              ELSE Own(s, q.x)
      ints(a, b) == q.op = "=" \/ (a.t = "i" /\ b.t = "i") IN
  IF ~e.ok THEN Fail(s)
  ELSE IF q.path = <<>>
  THEN IF q.op # "=" /\ (~base.ok \/ ~ints(base.v, e.v)) THEN Fail(s)
       ELSE IF q.g THEN [s EXCEPT !.glob = Bind(@, q.x, Op(q.op, base.v, e.v))]
       ELSE [s EXCEPT !.loc = Bind(@, q.x, Op(q.op, base.v, e.v))]
  ELSE LET c == IF base.ok THEN Get(s, base.v, SubSeq(q.path, 1, Len(q.path) - 1), TRUE)
                ELSE No
           last == q.path[Len(q.path)] IN
       IF ~c.ok THEN Fail(s)
       ELSE IF c.v.t = "i" THEN Fail(s)
       ELSE LET n == s.heap[c.v.v]
                k == Key(s, n, last, TRUE) IN
            IF ~Fits(n, last, TRUE) \/ ~k.ok THEN Fail(s)
            ELSE IF (n.t = "list" \/ q.op # "=") /\ ~Has(n.f, k.k) THEN Fail(s)
            ELSE IF q.op # "=" /\ ~ints(n.f[k.k], e.v) THEN Fail(s)
            ELSE [s EXCEPT !.heap[c.v.v].f =
                    Bind(@, k.k, IF q.op = "=" THEN e.v ELSE Op(q.op, n.f[k.k], e.v))]

Del(s, q) ==
  LET base == Own(s, q.x)
      c == IF base.ok THEN Get(s, base.v, SubSeq(q.path, 1, Len(q.path) - 1), TRUE) ELSE No
      last == q.path[Len(q.path)] IN
  IF ~c.ok THEN Fail(s)
  ELSE IF c.v.t = "i" THEN Fail(s)
  ELSE LET n == s.heap[c.v.v]
           k == Key(s, n, last, TRUE) IN
       IF ~Fits(n, last, TRUE) \/ ~k.ok THEN Fail(s)
       ELSE IF ~Has(n.f, k.k) THEN Fail(s)
       ELSE IF n.t = "list"
       THEN LET L == Size(n) - 1
                d == CHOOSE j \in 0..L : ToString(j) = k.k
                at(j) == n.f[ToString(IF j >= d THEN j + 1 ELSE j)] IN
            [s EXCEPT !.heap[c.v.v].f =
               [y \in {ToString(j) : j \in 0..(L - 1)} |->
                  at(CHOOSE j \in 0..(L - 1) : ToString(j) = y)]]
       ELSE [s EXCEPT !.heap[c.v.v].f = Unbind(@, k.k)]

Show(v) == IF v.t = "i" THEN ToString(v.v) ELSE "@" \o ToString(v.v)

RECURSIVE Exec(_, _)
Exec(s, prog) ==
  IF prog = <<>> \/ s.err THEN s
  ELSE LET q == Head(prog)
           s2 ==
    CASE q.k = "set" -> Set(s, q)
      [] q.k = "set2" ->
           LET a == Eval(s, q.a)  b == Eval(s, q.b) IN
           IF a.ok /\ b.ok THEN [s EXCEPT !.loc = Bind(Bind(@, q.x, a.v), q.y, b.v)]
           ELSE Fail(s)
      [] q.k = "del" -> Del(s, q)
      [] q.k = "read" ->
           LET r == Eval(s, [k |-> "p", x |-> q.x, path |-> q.path]) IN
           IF r.ok THEN [s EXCEPT !.out = @ \o Show(r.v) \o ";"] ELSE Fail(s)
       IN IF Len(s2.out) >= 0 THEN Exec(s2, Tail(prog)) ELSE s

AssignInit(cfg) == [heap |-> cfg.heap, glob |-> [x \in {} |-> 0], ns |-> cfg.ns]
AssignApply(st, o) ==
  LET s == Exec([heap |-> st.heap, glob |-> st.glob, ns |-> st.ns,
                 loc |-> [x \in {} |-> 0], out |-> "", err |-> FALSE], o.prog) IN
  {[st |-> [st EXCEPT !.heap = s.heap, !.glob = s.glob],
    resp |-> IF s.err THEN "err" ELSE s.out]}
=============================================================================
