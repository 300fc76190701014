----------------------------- MODULE Namespaces -----------------------------
(***************************************************************************)
(* Where a placeholder's name is found.                                    *)
(*                                                                         *)
(* cfg: [vals   : sequence of values [k, p]: k = "v" plain; "h" holds, under*)
(*                part name -> value number; "f" a function giving value   *)
(*                p.ret; (p is a record)                                    *)
(*       pool   : sequence of kinds of the caller's namespaces              *)
(*       cls    : record, the class's own attributes  -> value             *)
(*       mod    : record, the module's globals -> value                    *)
(*       meths  : record method name -> [p: parameter name, body]          *)
(*       prio   : search list before the object itself                      *)
(*       ac     : auto-calling ]                                            *)
(* A namespace is a record name -> value number.  The builtins hold the    *)
(* names of BI.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Nothing == [x \in {} |-> 0]
Bind(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
BI == {"Ellipsis", "KeyError"}

InitSt(cfg) == [cfg |-> cfg, pool |-> [j \in 1..Len(cfg.pool) |-> Nothing],
                cls |-> cfg.cls, mod |-> cfg.mod, objs |-> <<>>]
\* an object: [sl: its search list (numbers into pool), glob, own]

\* the namespaces a method of object o sees, nearest first
Order(st, o, loc) ==
  LET ob == st.objs[o]
      \* an attribute of the object hides the class's
      own == <<[x \in DOMAIN ob.own \cup DOMAIN st.cls |->
                 IF x \in DOMAIN ob.own THEN ob.own[x] ELSE st.cls[x]]>>
      sl == [j \in 1..Len(ob.sl) |-> st.pool[ob.sl[j]]]
      mid == IF st.cfg.prio THEN sl \o <<ob.glob>> \o own ELSE <<ob.glob>> \o own \o sl
  IN [all |-> <<loc>> \o mid \o <<st.mod>>, pub |-> mid]

RECURSIVE First(_, _)
First(nss, n) == IF nss = <<>> THEN 0
                 ELSE IF n \in DOMAIN Head(nss) THEN Head(nss)[n]
                 ELSE First(Tail(nss), n)

Called(cfg, v) == IF cfg.ac /\ cfg.vals[v].k = "f" THEN cfg.vals[v].p["ret"] ELSE v
\* the value of n (then of part m in it, if m # ""): number, or missing part
Find(cfg, nss, n, m, bi) ==
  LET v == First(nss, n) IN
  IF v = 0
  THEN IF bi /\ n \in BI
       THEN IF m = "" THEN [v |-> "B" \o n, miss |-> ""] ELSE [v |-> "", miss |-> m]
       ELSE [v |-> "", miss |-> n]
  ELSE LET w == Called(cfg, v) IN
       IF m = "" THEN [v |-> "V" \o ToString(w), miss |-> ""]
       ELSE IF cfg.vals[w].k = "h" /\ m \in DOMAIN cfg.vals[w].p
       THEN [v |-> "V" \o ToString(Called(cfg, cfg.vals[w].p[m])), miss |-> ""]
       ELSE [v |-> "", miss |-> m]

\* s: [st, o, loc, out]
RECURSIVE Exec(_, _), ExecFor(_, _, _)
Exec(s, ss) ==
  IF ss = <<>> THEN s
  ELSE LET q == Head(ss)
           cfg == s.st.cfg
           nss == Order(s.st, s.o, s.loc)
           s2 ==
    CASE q.s = "set" -> [s EXCEPT !.loc = Bind(@, q.n, q.v)]
      [] q.s = "gset" -> [s EXCEPT !.st.objs[s.o].glob = Bind(@, q.n, q.v)]
      [] q.s = "del" -> [s EXCEPT !.loc = Drop(@, q.n)]
      [] q.s = "ask" ->
           LET r == Find(cfg, nss.all, q.n, q.m, TRUE) IN
           [s EXCEPT !.out = @ \o "[" \o r.v \o
                       (IF r.miss = "" THEN "]" ELSE "!" \o r.miss)]
      [] q.s = "has" ->
           LET r == Find(cfg, nss.pub, q.n, q.m, FALSE) IN
           [s EXCEPT !.out = @ \o (IF r.miss = "" THEN "T" ELSE "F")]
      [] q.s = "get" ->
           LET r == Find(cfg, nss.pub, q.n, q.m, FALSE) IN
           [s EXCEPT !.out = @ \o "(" \o (IF r.miss = "" THEN r.v ELSE "D") \o ")"]
      [] q.s = "call" ->
           LET M == cfg.meths[q.n]
               r == Exec([s EXCEPT !.loc = M.p :> q.v], M.body) IN
           [r EXCEPT !.loc = s.loc]
      \* a closure gets value v, writes it (and hands it on to one inside it)
      [] q.s = "clo" ->
           LET t == "V" \o ToString(q.v) IN
           [s EXCEPT !.out = @ \o "{" \o t \o (IF q.m = "" THEN "" ELSE "<" \o t \o ">") \o "}"]
      [] q.s = "for" -> ExecFor(s, q, q.vs)
       IN Exec(s2, Tail(ss))
ExecFor(s, q, vs) ==
  IF vs = <<>> THEN s
  ELSE ExecFor(Exec([s EXCEPT !.loc = Bind(@, q.n, Head(vs))], q.body), q, Tail(vs))

\* operations on the application's side: [op, i, n, m, v, sl]
Apply(st, o) ==
  CASE o.op = "new" ->
         {[st |-> [st EXCEPT !.objs = Append(@, [sl |-> o.sl, glob |-> Nothing, own |-> Nothing])],
           resp |-> "ok"]}
    [] o.op = "put" -> {[st |-> [st EXCEPT !.pool[o.i] = Bind(@, o.n, o.v)], resp |-> "ok"]}
    [] o.op = "rm" -> {[st |-> [st EXCEPT !.pool[o.i] = Drop(@, o.n)], resp |-> "ok"]}
    [] o.op = "iset" -> {[st |-> [st EXCEPT !.objs[o.i].own = Bind(@, o.n, o.v)], resp |-> "ok"]}
    [] o.op = "idel" -> {[st |-> [st EXCEPT !.objs[o.i].own = Drop(@, o.n)], resp |-> "ok"]}
    [] o.op = "cset" -> {[st |-> [st EXCEPT !.cls = Bind(@, o.n, o.v)], resp |-> "ok"]}
    [] o.op = "mset" -> {[st |-> [st EXCEPT !.mod = Bind(@, o.n, o.v)], resp |-> "ok"]}
    [] o.op = "render" ->
         LET s == Exec([st |-> st, o |-> o.i, loc |-> Nothing, out |-> ""],
                       st.cfg.meths["main"].body)
         IN {[st |-> s.st, resp |-> s.out]}
    [] o.op = "has" ->
         {[st |-> st, resp |-> IF Find(st.cfg, Order(st, o.i, Nothing).pub, o.n, o.m, FALSE).miss = ""
                               THEN "T" ELSE "F"]}
    [] o.op = "get" ->
         LET r == Find(st.cfg, Order(st, o.i, Nothing).pub, o.n, o.m, FALSE) IN
         {[st |-> st, resp |-> IF r.miss = "" THEN r.v
                               ELSE IF o.v = 1 THEN "D" ELSE "!" \o r.miss]}
=============================================================================
