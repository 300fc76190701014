----------------------------- MODULE CheetahVM -----------------------------
(***************************************************************************)
(* The abstract machine of the template language: what rendering a         *)
(* template object does.  Small-step: one transition per statement,        *)
(* iteration, clause, region end, method entry/exit or unwinding step.     *)
(*                                                                         *)
(* World (case configuration, JSON):                                       *)
(*   cls   : sequence of classes [base, meths, attrs]; base 0 = Template;  *)
(*           optional: bases (several), main (the name of its main method) *)
(*           meths: record name -> [args, body]; args: seq of [n, d] with  *)
(*           d = <<>> (required) or <<value>> (default)                    *)
(*   objs  : sequence of template objects [cls, sl, filt]; sl = indices of *)
(*           the caller's namespaces, filt = its initial filter            *)
(*   ns    : sequence of the caller's namespaces (records name -> value)   *)
(*                                                                         *)
(* Machine state m:                                                        *)
(*   k    continuation stack (Head = next)     out  stack of output buffers*)
(*   loc  local variables of the method        o    current object         *)
(*   gs   per object: globally set variables   filt filter in force        *)
(*   cur  per object: filter methods start with                            *)
(*   ec   per object: the current error catcher                            *)
(*   errs per object: the placeholders its listing catcher has listed       *)
(*   sig  pending control signal: n (none) brk cont ret stop exc           *)
(*   objs objects: class, search path, whose global variables, filter      *)
(*   fs   the files includes read                                          *)
(*   log  evaluation log (calls to the caller's tracing function)          *)
(*   cx   static context: [c, m] class and method being executed (super)   *)
(***************************************************************************)
EXTENDS Values

None == [k |-> "n", v |-> VNone, x |-> ""]
Sig(k) == [None EXCEPT !.k = k]
Exc(x) == [None EXCEPT !.k = "exc", !.x = x]
Ret(v) == [None EXCEPT !.k = "ret", !.v = v]

\* exception hierarchy
Supers(x) == {x, "Exception"} \cup
  CASE x \in {"KeyError", "IndexError", "NotFound"} -> {"LookupError"}
    [] x = "UnboundLocalError" -> {"NameError"}
    [] x = "ZeroDivisionError" -> {"ArithmeticError"}
    [] x = "SubBoom" -> {"Boom"}
    [] OTHER -> {}
Matches(x, c) == c = "" \/ c \in Supers(x)

Bind(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Unbind(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
EmptyFn == [y \in {} |-> VNone]

----------------------------------------------------------------------------
\* Classes: method resolution
\* A class has any number of template base classes; the order in which classes
\* are searched is Python's: each class before its bases, bases in the given
\* order, every class once (the C3 merge).
BasesOf(W, c) == IF "bases" \in DOMAIN W.cls[c] THEN W.cls[c].bases
                 ELSE IF W.cls[c].base = 0 THEN <<>> ELSE <<W.cls[c].base>>
RECURSIVE Merge(_), Mro(_, _)
Merge(ls) ==
  LET L == SelectSeq(ls, LAMBDA q : q # <<>>) IN
  IF L = <<>> THEN <<>>
  ELSE LET good(j) == \A i \in 1..Len(L) : \A q \in 2..Len(L[i]) : L[i][q] # Head(L[j])
           j == CHOOSE q \in 1..Len(L) : good(q) /\ \A i \in 1..(q - 1) : ~good(i)
           h == Head(L[j])
       IN <<h>> \o Merge([i \in 1..Len(L) |-> IF Head(L[i]) = h THEN Tail(L[i]) ELSE L[i]])
Mro(W, c) ==
  LET B == BasesOf(W, c) IN
  IF Len(B) = 0 THEN <<c>>
  ELSE IF Len(B) = 1 THEN <<c>> \o Mro(W, B[1])
  ELSE <<c>> \o Merge([j \in 1..Len(B) |-> Mro(W, B[j])] \o <<B>>)

\* the first class of a search order that has a method name, 0 if none
RECURSIVE MethIn(_, _, _), MemberIn(_, _, _), After(_, _)
MethIn(W, cs, name) ==
  IF cs = <<>> THEN 0
  ELSE IF name \in DOMAIN W.cls[Head(cs)].meths THEN Head(cs)
  ELSE MethIn(W, Tail(cs), name)
MemberIn(W, cs, name) ==     \* method or attribute
  IF cs = <<>> THEN 0
  ELSE IF name \in DOMAIN W.cls[Head(cs)].meths \/ name \in DOMAIN W.cls[Head(cs)].attrs
  THEN Head(cs)
  ELSE MemberIn(W, Tail(cs), name)
After(cs, c) == IF cs = <<>> \/ Head(cs) = c THEN (IF cs = <<>> THEN <<>> ELSE Tail(cs))
                ELSE After(Tail(cs), c)
FindMeth(W, c, name) == MethIn(W, Mro(W, c), name)
\* the class whose method a super-call made in class c's method reaches, for an
\* object of class oc
SuperMeth(W, oc, c, name) == MethIn(W, After(Mro(W, oc), c), name)

\* what turning an object into text renders: the main method of its family
MainOf(W, c) == IF "main" \in DOMAIN W.cls[c] THEN W.cls[c].main ELSE "respond"
IsPy(W, c) == "py" \in DOMAIN W.cls[c] /\ W.cls[c].py     \* an ordinary Python class
RECURSIVE StrIn(_, _)
StrIn(W, cs) == IF \A j \in 1..Len(BasesOf(W, Head(cs))) : IsPy(W, BasesOf(W, Head(cs))[j])
                THEN MainOf(W, Head(cs)) ELSE StrIn(W, Tail(cs))
StrMeth(W, c) == StrIn(W, Mro(W, c))

\* Namespaces.  Each object has a search path: its globally set variables,
\* itself, the caller's namespaces; an included template searches its
\* includer's path and then itself.  Local variables come before the path,
\* the module's globals and the builtins after it.
\* Result: [ok, v]; a method is returned as [t: "m", v: name, o: object].
Builtins == [ len |-> [t |-> "f", v |-> "len"] ]
ModVars(W, c) == IF c # 0 /\ "mod" \in DOMAIN W.cls[c] THEN W.cls[c].mod ELSE EmptyFn
Found(v) == [ok |-> TRUE, v |-> v]
Missing == [ok |-> FALSE, v |-> VNone]
InEntry(W, m, en, x) ==
  CASE en.k = "gs" -> IF x \in DOMAIN m.gs[en.i] THEN Found(m.gs[en.i][x]) ELSE Missing
    [] en.k = "ns" -> IF x \in DOMAIN m.ns[en.i] THEN Found(m.ns[en.i][x]) ELSE Missing
    [] en.k = "obj" ->
         LET c == m.objs[en.i].cls
             f == MemberIn(W, Mro(W, c), x) IN
         IF f = 0 THEN Missing
         ELSE IF x \in DOMAIN W.cls[f].meths THEN Found([t |-> "m", v |-> x, o |-> en.i])
         ELSE Found(W.cls[f].attrs[x])
RECURSIVE InPath(_, _, _, _)
InPath(W, m, path, x) ==
  IF path = <<>> THEN Missing
  ELSE LET r == InEntry(W, m, Head(path), x) IN
       IF r.ok THEN r ELSE InPath(W, m, Tail(path), x)
PathOf(W, j) == <<[k |-> "gs", i |-> j], [k |-> "obj", i |-> j]>>
                \o [q \in 1..Len(W.objs[j].sl) |-> [k |-> "ns", i |-> W.objs[j].sl[q]]]
Lookup(W, m, x) ==
  IF x \in DOMAIN m.loc THEN Found(m.loc[x])
  ELSE LET r == InPath(W, m, m.objs[m.o].path, x) IN
       IF r.ok THEN r
       ELSE IF x \in DOMAIN ModVars(W, m.cx.c) THEN Found(ModVars(W, m.cx.c)[x])
       ELSE IF x \in DOMAIN Builtins THEN Found(Builtins[x])
       ELSE Missing

----------------------------------------------------------------------------
\* Expressions.  Eval gives [v, x, log]: the value, or the exception class x.
RECURSIVE Eval(_, _, _, _), EvalSeq(_, _, _, _, _)
OK(v, log) == [v |-> v, x |-> "", log |-> log]
Fail(x, log) == [v |-> VNone, x |-> x, log |-> log]

EvalSeq(W, m, es, acc, log) ==
  IF es = <<>> THEN OK(acc, log)
  ELSE LET r == Eval(W, m, Head(es), log) IN
       IF r.x # "" THEN r
       ELSE EvalSeq(W, m, Tail(es), Append(acc, r.v), r.log)

BinOp(op, a, b) ==
  CASE op = "+" -> IF a.t \in NumT /\ b.t \in NumT
                   THEN OK(VInt(AsInt(a) + AsInt(b)), "")
                   ELSE IF a.t = "s" /\ b.t = "s" THEN OK(VStr(a.v \o b.v), "")
                   ELSE IF a.t = "l" /\ b.t = "l" THEN OK(VList(a.v \o b.v), "")
                   ELSE Fail("TypeError", "")
    [] op = "-" -> IF a.t \in NumT /\ b.t \in NumT
                   THEN OK(VInt(AsInt(a) - AsInt(b)), "") ELSE Fail("TypeError", "")
    [] op = "==" -> OK(VBool(VEq(a, b)), "")
    [] op = "!=" -> OK(VBool(~VEq(a, b)), "")
    [] op \in {"<", ">"} ->
         LET q == IF op = "<" THEN Less(a, b) ELSE Less(b, a) IN
         IF q = "E" THEN Fail("TypeError", "") ELSE OK(VBool(q = "T"), "")
    [] op = "in" -> IF b.t = "l" THEN OK(VBool(\E j \in DOMAIN b.v : VEq(a, b.v[j])), "")
                    ELSE Fail("TypeError", "")
    [] OTHER -> Fail("SyntaxError", "")

Arity(f) == CASE f = "tr" -> 2 [] f = "kwshow" -> 0 [] OTHER -> 1

\* the caller's functions (pure but for the evaluation log)
CallFn(f, args, log) ==
  CASE f = "boom" -> Fail("Boom", log)
    [] f = "subboom" -> Fail("SubBoom", log)
    [] f = "fail" -> Fail(args[1].v, log)
    [] f = "tr" -> OK(args[2], log \o args[1].v \o ";")
    [] f = "ident" -> OK(args[1], log)
    [] f = "up" -> OK(VStr("(" \o Str(args[1]) \o ")"), log)
    [] f = "nothing" -> OK(VNone, log)
    [] f = "len" -> IF args[1].t \in {"s", "l"} THEN OK(VInt(Len(args[1].v)), log)
                    ELSE Fail("TypeError", log)
    [] f = "zero" -> OK(VInt(0), log)
    [] f = "cat" -> OK(VStr(Str(args[1]) \o "/" \o Str(args[2])), log)
    [] OTHER -> Fail("NoSuchFn", log)

Eval(W, m, e, log) ==
  CASE e.e = "c" -> OK(e.v, log)
    [] e.e = "v" ->
         LET r == Lookup(W, m, e.x) IN
         IF ~r.ok THEN Fail("NotFound", log)
         ELSE IF r.v.t = "f" THEN CallFn(r.v.v, <<>>, log)   \* auto-call
         ELSE OK(r.v, log)
    [] e.e = "bin" ->
         LET a == Eval(W, m, e.a, log) IN
         IF a.x # "" THEN a
         ELSE LET b == Eval(W, m, e.b, a.log) IN
              IF b.x # "" THEN b
              ELSE LET r == BinOp(e.op, a.v, b.v) IN [r EXCEPT !.log = b.log]
    [] e.e = "and" -> LET a == Eval(W, m, e.a, log) IN
         IF a.x # "" \/ ~Truth(a.v) THEN a ELSE Eval(W, m, e.b, a.log)
    [] e.e = "or" -> LET a == Eval(W, m, e.a, log) IN
         IF a.x # "" \/ Truth(a.v) THEN a ELSE Eval(W, m, e.b, a.log)
    [] e.e = "not" -> LET a == Eval(W, m, e.a, log) IN
         IF a.x # "" THEN a ELSE OK(VBool(~Truth(a.v)), a.log)
    [] e.e = "list" -> LET r == EvalSeq(W, m, e.l, <<>>, log) IN
         IF r.x # "" THEN r ELSE OK(VList(r.v), r.log)
    [] e.e = "idx" -> LET r == EvalSeq(W, m, <<e.a, e.i>>, <<>>, log) IN
         IF r.x # "" THEN r
         ELSE IF r.v[1].t # "l" THEN Fail("TypeError", r.log)
         ELSE IF r.v[2].v >= 0 /\ r.v[2].v < Len(r.v[1].v)
              THEN OK(r.v[1].v[r.v[2].v + 1], r.log)
              ELSE Fail("IndexError", r.log)
    [] e.e = "call" ->
         LET f == Lookup(W, m, e.f) IN
         IF ~f.ok THEN Fail("NotFound", log)
         ELSE LET r == EvalSeq(W, m, e.args, <<>>, log) IN
              IF r.x # "" THEN r
              ELSE IF f.v.t # "f" THEN Fail("TypeError", r.log)
              ELSE CallFn(f.v.v, r.v, r.log)
    [] e.e = "has" -> OK(VBool(InPath(W, m, m.objs[m.o].path, e.x).ok), log)
    [] OTHER -> Fail("BadExpr", log)

----------------------------------------------------------------------------
\* Output
Write(m, s) == [m EXCEPT !.out = <<Head(@) \o s>> \o Tail(@)]
\* a placeholder's value: None writes nothing, anything else is filtered
PutVal(m, v, kw) == IF v.t = "n" THEN m ELSE Write(m, ApplyFilter(m.filt, v, kw))
Push(m, item) == [m EXCEPT !.k = <<item>> \o @]
Run(m, ss) == IF ss = <<>> THEN m ELSE Push(m, [k |-> "seq", ss |-> ss])
Raise(m, x) == [m EXCEPT !.sig = Exc(x)]

KwOf(s) == IF "kw" \in DOMAIN s THEN s.kw ELSE NoKw

\* Method call: bind arguments, new buffer, the object's current filter.
\* `then` says what happens with the result.  args: sequence of values,
\* kws: record of keyword values.
BindArgs(M, args, kws) ==
  [j \in {M.args[i].n : i \in 1..Len(M.args)} |->
     LET i == CHOOSE q \in 1..Len(M.args) : M.args[q].n = j IN
     IF i <= Len(args) THEN args[i]
     ELSE IF j \in DOMAIN kws THEN kws[j]
     ELSE M.args[i].d[1]]
ArgsOK(M, args, kws) ==
  /\ Len(args) <= Len(M.args)
  /\ \A i \in 1..Len(M.args) :
       \/ i <= Len(args) /\ M.args[i].n \notin DOMAIN kws
       \/ i > Len(args) /\ (M.args[i].n \in DOMAIN kws \/ M.args[i].d # <<>>)
EnterMeth(W, m, o, c, name, args, kws, then) ==
  LET M == W.cls[c].meths[name] IN
  IF ~ArgsOK(M, args, kws) THEN Raise(m, "TypeError")
  ELSE [m EXCEPT
    !.k = <<[k |-> "seq", ss |-> M.body],
            [k |-> "meth", loc |-> m.loc, filt |-> m.filt, o |-> m.o,
             cx |-> m.cx, then |-> then]>> \o @,
    !.loc = BindArgs(M, args, kws),
    !.o = o,
    !.filt = m.cur[o],
    !.cx = [c |-> c, m |-> name, args |-> args],
    !.out = <<"">> \o @]

Deliver(W, m, v, then) ==
  CASE then.a = "put" -> PutVal(m, v, then.kw)
    [] then.a = "set" -> [m EXCEPT !.loc = Bind(@, then.x, v)]
    [] then.a = "gset" -> [m EXCEPT !.gs[m.objs[m.o].g] = Bind(@, then.x, v)]
    [] then.a = "drop" -> m
    [] then.a = "return" -> [m EXCEPT !.sig = Ret(v)]
    [] then.a = "up" -> PutVal(m, VStr("(" \o Str(v) \o ")"), NoKw)

\* the name found for a method call: a method of the object, or one of the
\* caller's functions
CallNamed(W, m, name, args, kws, then) ==
  LET r == Lookup(W, m, name) IN
  IF ~r.ok THEN Raise(m, "NotFound")
  ELSE IF r.v.t = "m"
  THEN EnterMeth(W, m, r.v.o, FindMeth(W, m.objs[r.v.o].cls, name), name, args, kws, then)
  ELSE IF r.v.t = "f"
  THEN IF r.v.v = "kwshow"
       THEN Deliver(W, m, VStr("{" \o
              (IF "a" \in DOMAIN kws THEN "a=" \o Str(kws["a"]) \o "," ELSE "") \o
              (IF "b" \in DOMAIN kws THEN "b=" \o Str(kws["b"]) \o "," ELSE "") \o
              (IF "c" \in DOMAIN kws THEN "c=" \o Str(kws["c"]) \o "," ELSE "") \o "}"),
              then)
       ELSE LET c == CallFn(r.v.v, args, m.log) IN
            IF c.x # "" THEN [Raise(m, c.x) EXCEPT !.log = c.log]
            ELSE Deliver(W, [m EXCEPT !.log = c.log], c.v, then)
  ELSE Raise(m, "TypeError")

\* Statements that need an expression evaluated first
WithVal(W, m, e, F(_, _)) ==
  LET r == Eval(W, m, e, m.log)
      m2 == [m EXCEPT !.log = r.log] IN
  IF r.x # "" THEN Raise(m2, r.x) ELSE F(m2, r.v)

\* `$name` alone auto-calls a method: it is a method call without arguments
IsAutoMeth(W, m, e) == e.e = "v" /\ LET r == Lookup(W, m, e.x) IN r.ok /\ r.v.t = "m"

Put(W, m, e, kw) ==
  IF IsAutoMeth(W, m, e)
  THEN CallNamed(W, m, e.x, <<>>, EmptyFn, [a |-> "put", kw |-> kw])
  ELSE WithVal(W, m, e, LAMBDA m2, v : PutVal(m2, v, kw))

RECURSIVE IfChain(_, _, _)
IfChain(W, m, cs) ==
  IF cs = <<>> THEN m
  ELSE LET c == Head(cs) IN
       IF c.e.e = "else" THEN Run(m, c.body)
       ELSE WithVal(W, m, c.e, LAMBDA m2, v :
              IF Truth(v) THEN Run(m2, c.body) ELSE IfChain(W, m2, Tail(cs)))

EvalArgs(W, m, es, F(_, _)) ==
  LET r == EvalSeq(W, m, es, <<>>, m.log)
      m2 == [m EXCEPT !.log = r.log] IN
  IF r.x # "" THEN Raise(m2, r.x) ELSE F(m2, r.v)

\* a call in a placeholder or directive: the name first, then the arguments
CallM(W, m, f, args, then) ==
  IF ~Lookup(W, m, f).ok THEN Raise(m, "NotFound")
  ELSE EvalArgs(W, m, args, LAMBDA m2, vs : CallNamed(W, m2, f, vs, EmptyFn, then))

Iterable(v) == v.t \in {"l", "s"}
Items(v) == IF v.t = "l" THEN v.v ELSE [j \in 1..Len(v.v) |-> VStr(Ch(v.v, j))]

\* Includes.  The text comes from a file or is the expression's value; raw
\* text is written as it is, otherwise the template it is the source of (W.inc
\* maps texts to classes) is rendered into the current destination by a nested
\* object that shares the includer's search path, globally set variables and
\* initial filter.
Include(W, m, s, v) ==
  IF v.t # "s" THEN Raise(m, "TypeError")
  ELSE IF s.from = "file" /\ v.v \notin DOMAIN m.fs THEN Raise(m, "FileNotFoundError")
  ELSE LET text == IF s.from = "file" THEN m.fs[v.v] ELSE v.v IN
  IF s.raw THEN Write(m, text)
  ELSE LET j == CHOOSE q \in 1..Len(W.inc) : W.inc[q].text = text
           c == W.inc[j].cls
           n == Len(m.objs) + 1
           O == m.objs[m.o] IN
    [m EXCEPT
      !.k = <<[k |-> "seq", ss |-> W.cls[c].meths["respond"].body],
              [k |-> "inc", loc |-> m.loc, filt |-> m.filt, o |-> m.o, cx |-> m.cx]>> \o @,
      !.objs = Append(@, [cls |-> c, path |-> Append(O.path, [k |-> "obj", i |-> n]),
                          g |-> O.g, filt |-> O.filt]),
      !.cur = Append(@, O.filt), !.ec = Append(@, ""), !.errs = Append(@, ""),
      !.loc = EmptyFn, !.o = n, !.filt = O.filt,
      !.cx = [c |-> c, m |-> "respond", args |-> <<>>]]
LeaveInc(m, it) ==
  [m EXCEPT !.loc = it.loc, !.filt = it.filt, !.o = it.o, !.cx = it.cx,
            !.objs = SubSeq(@, 1, Len(@) - 1), !.cur = SubSeq(@, 1, Len(@) - 1),
            !.ec = SubSeq(@, 1, Len(@) - 1), !.errs = SubSeq(@, 1, Len(@) - 1)]
LeaveBlock(m, it) ==
  [m EXCEPT !.loc = it.loc, !.filt = it.filt, !.o = it.o, !.cx = it.cx]

\* Error policy of a placeholder: a silent one is left out when a name is
\* missing; one that follows an errorCatcher directive in its method (and no end
\* of it) is replaced by what the object's current catcher says.  Source
\* positions: s.p of the placeholder, M.ecs of the method's directives.
Catching(W, m, s) ==
  LET M == W.cls[m.cx.c].meths[m.cx.m] IN
  IF "ecs" \notin DOMAIN M \/ "p" \notin DOMAIN s THEN FALSE
  ELSE LET B == {j \in 1..Len(M.ecs) : M.ecs[j].p < s.p} IN
       B # {} /\ M.ecs[CHOOSE j \in B : \A i \in B : i <= j].on
Guard(W, m, s) ==
  IF "sil" \in DOMAIN s /\ s.sil THEN Push(m, [k |-> "ecp", sil |-> TRUE])
  ELSE IF Catching(W, m, s)
  THEN Push(m, [k |-> "ecp", sil |-> FALSE, raw |-> s.raw, kw |-> KwOf(s)])
  ELSE m
Caught(m, it) ==     \* the placeholder `it` guards could not be found
  LET c == m.ec[m.o]
      ok == [m EXCEPT !.sig = None] IN
  IF it.sil THEN ok
  ELSE CASE c = "" -> m           \* no catcher directive was reached
         [] c = "KeyError" -> Raise(m, "KeyError")
         [] c = "BigEcho" -> PutVal(ok, VStr("===============&lt;" \o it.raw
                                   \o " could not be found&gt;==============="), it.kw)
         [] c = "ListErrors" -> PutVal([ok EXCEPT !.errs[m.o] = @ \o it.raw \o ";"],
                                       VStr(it.raw), it.kw)
         [] OTHER -> PutVal(ok, VStr(it.raw), it.kw)      \* Echo

Exec(W, m, s) ==
  CASE s.s = "text" -> Write(m, s.v)
    [] s.s = "put" -> Put(W, Guard(W, m, s), s.e, KwOf(s))
    [] s.s = "echo" -> Put(W, m, s.e, NoKw)
    [] s.s = "silent" -> WithVal(W, m, s.e, LAMBDA m2, v : m2)
    [] s.s = "tern" -> WithVal(W, m, s.c, LAMBDA m2, v :
                         Put(W, m2, IF Truth(v) THEN s.a ELSE s.b, NoKw))
    [] s.s = "set" -> WithVal(W, m, s.e, LAMBDA m2, v :
                        [m2 EXCEPT !.loc = Bind(@, s.x, v)])
    [] s.s = "gset" -> WithVal(W, m, s.e, LAMBDA m2, v :
                        [m2 EXCEPT !.gs[m.objs[m.o].g] = Bind(@, s.x, v)])
    [] s.s = "aug" -> IF s.x \notin DOMAIN m.loc THEN Raise(m, "UnboundLocalError")
                      ELSE WithVal(W, m, s.e, LAMBDA m2, v :
                        LET r == BinOp("+", m2.loc[s.x], v) IN
                        IF r.x # "" THEN Raise(m2, r.x)
                        ELSE [m2 EXCEPT !.loc = Bind(@, s.x, r.v)])
    [] s.s = "gaug" -> LET gi == m.objs[m.o].g IN    \* only a variable set globally
                       IF s.x \notin DOMAIN m.gs[gi] THEN Raise(m, "KeyError")
                       ELSE LET old == m.gs[gi][s.x] IN
                            WithVal(W, m, s.e, LAMBDA m2, v :
                              LET r == BinOp("+", old, v) IN
                              IF r.x # "" THEN Raise(m2, r.x)
                              ELSE [m2 EXCEPT !.gs[gi] = Bind(@, s.x, r.v)])
    [] s.s = "del" -> IF s.x \in DOMAIN m.loc THEN [m EXCEPT !.loc = Unbind(@, s.x)]
                      ELSE Raise(m, "UnboundLocalError")
    [] s.s = "if" -> IfChain(W, m, s.cs)
    [] s.s = "unless" -> WithVal(W, m, s.e, LAMBDA m2, v :
                           IF Truth(v) THEN Run(m2, s.els) ELSE Run(m2, s.body))
    [] s.s = "for" -> WithVal(W, m, s.e, LAMBDA m2, v :
                        IF ~Iterable(v) THEN Raise(m2, "TypeError")
                        ELSE Push(m2, [k |-> "for", x |-> s.x, it |-> Items(v),
                                       body |-> s.body, els |-> s.els]))
    [] s.s = "while" -> Push(m, [k |-> "while", e |-> s.e, body |-> s.body,
                                 els |-> s.els])
    [] s.s = "repeat" -> WithVal(W, m, s.e, LAMBDA m2, v :
                        IF v.t \notin NumT THEN Raise(m2, "TypeError")
                        ELSE Push(m2, [k |-> "rep", n |-> AsInt(v), body |-> s.body,
                                       els |-> s.els]))
    [] s.s = "pass" -> m
    [] s.s = "break" -> [m EXCEPT !.sig = Sig("brk")]
    [] s.s = "continue" -> [m EXCEPT !.sig = Sig("cont")]
    [] s.s = "stop" -> [m EXCEPT !.sig = Sig("stop")]
    [] s.s = "return" -> IF IsAutoMeth(W, m, s.e)
                         THEN CallNamed(W, m, s.e.x, <<>>, EmptyFn, [a |-> "return"])
                         ELSE WithVal(W, m, s.e, LAMBDA m2, v :
                           [m2 EXCEPT !.sig = Ret(v)])
    [] s.s = "raise" -> Raise(m, s.x)
    [] s.s = "assert" -> WithVal(W, m, s.e, LAMBDA m2, v :
                           IF Truth(v) THEN m2 ELSE Raise(m2, "AssertionError"))
    [] s.s = "try" -> Run(Push(m, [k |-> "try", ex |-> s.ex, els |-> s.els,
                                   fin |-> s.fin, ph |-> "body"]), s.body)
    [] s.s = "capture" -> Run(Push([m EXCEPT !.out = <<"">> \o @],
                                   [k |-> "cap", x |-> s.x]), s.body)
    [] s.s = "call" ->      \* parts: seq of [n, body]; n = "" for a plain body
         LET it == [k |-> "creg", f |-> s.f, args |-> s.args, cur |-> s.parts[1].n,
                    kn |-> IF "kn" \in DOMAIN s THEN s.kn ELSE <<>>,   \* names of args
                    todo |-> Tail(s.parts), done |-> EmptyFn]
         IN Run(Push([m EXCEPT !.out = <<"">> \o @], it), s.parts[1].body)
    [] s.s = "filter" ->
         LET f == IF s.f = "None" THEN m.objs[m.o].filt ELSE s.f
             m2 == Push(m, [k |-> "filt", f |-> m.filt, o |-> m.o])
         IN Run([m2 EXCEPT !.filt = f, !.cur[m.o] = f], s.body)
    [] s.s = "putm" -> CallM(W, Guard(W, m, s), s.f, s.args, [a |-> "put", kw |-> KwOf(s)])
    [] s.s = "setm" -> CallM(W, m, s.f, s.args, [a |-> IF s.g THEN "gset" ELSE "set", x |-> s.x])
    [] s.s = "silentm" -> CallM(W, m, s.f, s.args, [a |-> "drop"])
    [] s.s = "upm" -> CallM(W, Guard(W, m, s), s.f, s.args, [a |-> "up"])
    [] s.s = "super" ->
         LET c == SuperMeth(W, m.objs[m.o].cls, m.cx.c, m.cx.m) IN
         IF c = 0 THEN Raise(m, "AttributeError")
         ELSE EvalArgs(W, m, s.args, LAMBDA m2, vs :
                EnterMeth(W, m2, m.o, c, m.cx.m, vs, EmptyFn, [a |-> "put", kw |-> NoKw]))
    [] s.s = "block" ->    \* renders the most derived definition, in place
         LET c == FindMeth(W, m.objs[m.o].cls, s.f)
             M == W.cls[c].meths[s.f] IN
         IF ~ArgsOK(M, <<>>, EmptyFn) THEN Raise(m, "TypeError")
         ELSE [m EXCEPT
           !.k = <<[k |-> "seq", ss |-> M.body],
                   [k |-> "blk", loc |-> m.loc, filt |-> m.filt, o |-> m.o, cx |-> m.cx]>> \o @,
           !.loc = BindArgs(M, <<>>, EmptyFn), !.filt = m.cur[m.o],
           !.cx = [c |-> c, m |-> s.f, args |-> <<>>]]
    [] s.s = "ec" -> IF s.f = "" THEN m ELSE [m EXCEPT !.ec[m.o] = s.f]
    [] s.s = "inc" -> WithVal(W, m, s.e, LAMBDA m2, v : Include(W, m2, s, v))
    [] OTHER -> Raise(m, "BadStmt")

RECURSIVE KwBind(_, _, _)
KwBind(f, ns, vs) == IF ns = <<>> THEN f
                     ELSE KwBind(Bind(f, Head(ns), Head(vs)), Tail(ns), Tail(vs))

\* Normal arrival at a continuation item that is not a statement sequence
Arrive(W, m, it) ==      \* m.k has already lost `it`
  CASE it.k = "for" ->
         IF it.it = <<>> THEN Run(m, it.els)
         ELSE Run(Push([m EXCEPT !.loc = Bind(@, it.x, Head(it.it))],
                       [it EXCEPT !.it = Tail(@)]), it.body)
    [] it.k = "while" ->
         WithVal(W, m, it.e, LAMBDA m2, v :
           IF Truth(v) THEN Run(Push(m2, it), it.body) ELSE Run(m2, it.els))
    [] it.k = "rep" -> IF it.n <= 0 THEN Run(m, it.els)
                       ELSE Run(Push(m, [it EXCEPT !.n = @ - 1]), it.body)
    [] it.k = "try" ->
         IF it.ph = "body" THEN Run(Push(m, [it EXCEPT !.ph = "handler"]), it.els)
         ELSE Run(Push(m, [k |-> "fin", sig |-> None]), it.fin)
    [] it.k = "fin" -> [m EXCEPT !.sig = it.sig]
    [] it.k = "cap" -> [m EXCEPT !.out = Tail(@),
                                 !.loc = Bind(@, it.x, VStr(Head(m.out)))]
    [] it.k = "creg" ->
         LET done == Bind(it.done, it.cur, VStr(Head(m.out))) IN
         IF it.todo # <<>>
         THEN Run(Push([m EXCEPT !.out = <<"">> \o Tail(@)],
                       [it EXCEPT !.done = done, !.cur = Head(it.todo).n,
                                  !.todo = Tail(@)]), Head(it.todo).body)
         ELSE EvalArgs(W, [m EXCEPT !.out = Tail(@)], it.args, LAMBDA m2, vs :
                IF it.cur = ""
                THEN CallNamed(W, m2, it.f, <<done[""]>> \o vs, EmptyFn,
                               [a |-> "put", kw |-> NoKw])
                ELSE IF it.kn = <<>>
                THEN CallNamed(W, m2, it.f, vs, done, [a |-> "put", kw |-> NoKw])
                ELSE IF \E j \in 1..Len(it.kn) : it.kn[j] \in DOMAIN done
                THEN Raise(m2, "TypeError")     \* given twice
                ELSE CallNamed(W, m2, it.f, <<>>, KwBind(done, it.kn, vs),
                               [a |-> "put", kw |-> NoKw]))
    [] it.k = "filt" -> [m EXCEPT !.filt = it.f, !.cur[it.o] = it.f]
    [] it.k = "meth" ->
         Deliver(W, [m EXCEPT !.out = Tail(@), !.loc = it.loc, !.filt = it.filt,
                              !.o = it.o, !.cx = it.cx],
                 VStr(Head(m.out)), it.then)
    [] it.k = "inc" -> LeaveInc(m, it)
    [] it.k = "blk" -> LeaveBlock(m, it)
    [] OTHER -> m

\* A pending signal reaches a continuation item
Unwind(W, m, it) ==      \* m.k has already lost `it`
  LET sig == m.sig IN
  CASE it.k = "seq" -> m
    [] it.k \in {"for", "while", "rep"} ->
         CASE sig.k = "brk" -> [m EXCEPT !.sig = None]
           [] sig.k = "cont" -> Push([m EXCEPT !.sig = None], it)
           [] OTHER -> m
    [] it.k = "try" ->
         LET H == IF sig.k = "exc" /\ it.ph = "body"
                  THEN {j \in 1..Len(it.ex) : Matches(sig.x, it.ex[j].c)} ELSE {}
         IN IF H # {}
            THEN LET j == CHOOSE q \in H : \A i \in H : q <= i IN
                 Run(Push([m EXCEPT !.sig = None], [it EXCEPT !.ph = "handler"]),
                     it.ex[j].body)
            ELSE Run(Push([m EXCEPT !.sig = None], [k |-> "fin", sig |-> sig]), it.fin)
    [] it.k = "fin" -> m
    [] it.k = "cap" -> [m EXCEPT !.out = Tail(@)]
    [] it.k = "creg" -> [m EXCEPT !.out = Tail(@)]
    [] it.k = "filt" -> [m EXCEPT !.filt = it.f, !.cur[it.o] = it.f]
    [] it.k = "meth" ->
         LET m2 == [m EXCEPT !.out = Tail(@), !.loc = it.loc, !.filt = it.filt,
                             !.o = it.o, !.cx = it.cx] IN
         IF sig.k = "exc" THEN m2
         ELSE Deliver(W, [m2 EXCEPT !.sig = None],
                      IF sig.k = "ret" THEN sig.v ELSE VStr(Head(m.out)), it.then)
    [] it.k = "ecp" -> IF sig.k = "exc" /\ sig.x = "NotFound" THEN Caught(m, it) ELSE m
    [] it.k = "blk" -> LET m2 == LeaveBlock(m, it) IN
         IF sig.k = "exc" THEN m2 ELSE [m2 EXCEPT !.sig = None]
    [] it.k = "inc" -> LET m2 == LeaveInc(m, it) IN
         IF sig.k = "exc" THEN m2 ELSE [m2 EXCEPT !.sig = None]
    [] OTHER -> m

Running(m) == m.k # <<>>
Step(W, m) ==
  LET it == Head(m.k)
      r == [m EXCEPT !.k = Tail(@)] IN
  IF m.sig.k # "n" THEN Unwind(W, r, it)
  ELSE IF it.k = "seq"
  THEN IF it.ss = <<>> THEN r
       ELSE Exec(W, IF Len(it.ss) = 1 THEN r
                    ELSE Push(r, [k |-> "seq", ss |-> Tail(it.ss)]), Head(it.ss))
  ELSE Arrive(W, r, it)

----------------------------------------------------------------------------
\* Top level: rendering object o by its main method
MInit(W) == [k |-> <<>>, out |-> <<>>, loc |-> EmptyFn, o |-> 1,
             objs |-> [j \in 1..Len(W.objs) |->
                        [cls |-> W.objs[j].cls, path |-> PathOf(W, j), g |-> j,
                         filt |-> W.objs[j].filt]],
             gs |-> [j \in 1..Len(W.objs) |-> EmptyFn],
             ns |-> W.ns,
             fs |-> IF "fs" \in DOMAIN W THEN W.fs ELSE EmptyFn,
             filt |-> "", cur |-> [j \in 1..Len(W.objs) |-> W.objs[j].filt],
             ec |-> [j \in 1..Len(W.objs) |->
                       IF "ec" \in DOMAIN W.objs[j] THEN W.objs[j].ec ELSE ""],
             errs |-> [j \in 1..Len(W.objs) |-> ""],
             sig |-> None, log |-> "",
             cx |-> [c |-> 0, m |-> "", args |-> <<>>]]
StartRender(W, m, o, name) ==    \* name "": turning the object into text
  LET meth == IF name = "" THEN StrMeth(W, m.objs[o].cls) ELSE name
      c == FindMeth(W, m.objs[o].cls, meth) IN
  [m EXCEPT !.k = <<[k |-> "seq", ss |-> W.cls[c].meths[meth].body]>>,
            !.out = <<"">>, !.loc = EmptyFn, !.o = o, !.sig = None,
            !.filt = m.cur[o], !.log = "",
            !.cx = [c |-> c, m |-> meth, args |-> <<>>]]
\* what the caller gets (trans: rendering into a transaction)
Result(m, trans) ==
  LET t == IF trans THEN "|trans:" \o m.out[1] ELSE "" IN
  CASE m.sig.k = "exc" -> "exc:" \o m.sig.x \o t
    [] m.sig.k = "ret" -> "ret:" \o Repr(m.sig.v) \o t
    [] OTHER -> IF trans THEN "ret:''" \o t ELSE "ret:'" \o m.out[1] \o "'"
=============================================================================
