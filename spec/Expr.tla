-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Expressions in placeholders and directives.  An expression is a tree;   *)
(* its value is the one Python gives when every placeholder in it stands   *)
(* for what name lookup finds.  A placeholder is a name with trailers      *)
(* (attributes, subscripts, slices, calls): attributes mean key or         *)
(* attribute, and a function reached by a name is called unless the        *)
(* placeholder calls it itself.                                            *)
(* Values: [t, v]; "err" when evaluation raises, "skip" when this          *)
(* specification leaves the result open.  A string is a sequence of        *)
(* indivisible pieces.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VI(n) == [t |-> "i", v |-> n]
VB(b) == [t |-> "b", v |-> b]
VS(x) == [t |-> "s", v |-> x]
VL(x) == [t |-> "l", v |-> x]
VT(x) == [t |-> "t", v |-> x]
VD(x) == [t |-> "d", v |-> x]       \* sequence of <<key, value>>
VO(n) == [t |-> "o", v |-> n]
VF(n) == [t |-> "f", v |-> n]
VN    == [t |-> "n", v |-> 0]
Err   == [t |-> "err", v |-> 0]
Open  == [t |-> "skip", v |-> 0]
Bad(x) == x.t \in {"err", "skip"}

\* the namespace
Env == [a |-> VI(3), z |-> VI(0), s |-> VS(<<"S0">>), e |-> VS(<<>>), l |-> VL(<<VI(1), VI(2), VI(3)>>),
        d |-> VD(<<<<VS(<<"k">>), VI(5)>>, <<VS(<<"m">>), VL(<<VI(7), VI(8)>>)>>,
                   <<VS(<<"g">>), VF("g")>>, <<VS(<<"S0">>), VI(6)>>>>),
        o |-> VO("o"), p |-> VO("p"), f |-> VF("f"), g |-> VF("g"), h |-> VF("h"),
        t |-> VT(<<VI(1), VS(<<"S1">>)>>), no |-> VN, yes |-> VB(TRUE)]
Attrs(o) == CASE o = "o" -> [n |-> VI(7), l |-> VL(<<VI(4), VI(5)>>), s |-> VS(<<"S1">>), m |-> VF("m"),
                             me |-> VF("me")]
              [] o = "p" -> [o |-> VO("o"), d |-> Env["d"], g |-> VF("g"), it |-> VF("it")]
              [] OTHER -> <<>>
Pt(x) == [t |-> "f", v |-> x]
\* calls of the namespace's functions
CallF(f, args, kw) ==
  CASE f = "f" -> VT(<<VS(<<"f">>), VT(args), VD(kw)>>)
    [] f = "g" -> IF args = <<>> /\ kw = <<>> THEN VI(4) ELSE Err
    [] f = "h" -> IF args = <<>> /\ kw = <<>> THEN VF("f") ELSE Err
    [] f = "me" -> IF args = <<>> /\ kw = <<>> THEN VO("o") ELSE Err
    [] f = "m" -> LET x == IF Len(args) = 1 /\ kw = <<>> THEN args[1]
                           ELSE IF args = <<>> /\ kw = <<>> THEN VI(1)
                           ELSE IF args = <<>> /\ Len(kw) = 1 /\ kw[1][1] = VS(<<"x">>) THEN kw[1][2]
                           ELSE Err IN
                  IF x.t = "i" THEN VI(x.v + 10) ELSE IF x.t = "b" THEN Open ELSE Err
    [] f = "it" -> IF Len(args) = 1 /\ kw = <<>> THEN args[1] ELSE Err
    [] f = "sum" -> IF Len(args) = 1 /\ args[1].t = "l"
                       /\ \A j \in DOMAIN args[1].v : args[1].v[j].t = "i"
                    THEN LET RECURSIVE S(_)
                             S(j) == IF j > Len(args[1].v) THEN 0 ELSE args[1].v[j].v + S(j + 1)
                         IN VI(S(1))
                    ELSE Open
    [] OTHER -> Open

Nums == {"i", "b"}
N(x) == IF x.t = "b" THEN (IF x.v THEN 1 ELSE 0) ELSE x.v
RECURSIVE Eq(_, _)
Eq(x, y) == IF x.t \in Nums /\ y.t \in Nums THEN N(x) = N(y)
            ELSE IF x.t # y.t THEN FALSE
            ELSE IF x.t \in {"l", "t"} THEN Len(x.v) = Len(y.v) /\ \A j \in DOMAIN x.v : Eq(x.v[j], y.v[j])
            ELSE IF x.t = "d" THEN Len(x.v) = Len(y.v) /\ \A j \in DOMAIN x.v : \E q \in DOMAIN y.v :
                                     Eq(x.v[j][1], y.v[q][1]) /\ Eq(x.v[j][2], y.v[q][2])
            ELSE x.v = y.v
Truth(x) == CASE x.t = "i" -> x.v # 0 [] x.t = "b" -> x.v [] x.t = "n" -> FALSE
              [] x.t \in {"s", "l", "t", "d"} -> x.v # <<>> [] OTHER -> TRUE
Hashable(x) == x.t \in {"i", "b", "s", "n", "f", "o"} \/ (x.t = "t" /\ \A j \in DOMAIN x.v : x.v[j].t \in {"i", "s", "n"})
Lookup(dv, k) == {j \in DOMAIN dv : Eq(dv[j][1], k)}
\* dict display and update: later entries win, the position of the first stays
RECURSIVE DictOf(_, _)
DictOf(ps, acc) ==
  IF ps = <<>> THEN acc
  ELSE LET h == Head(ps)
           w == Lookup(acc, h[1]) IN
       DictOf(SubSeq(ps, 2, Len(ps)),
              IF w = {} THEN Append(acc, h)
              ELSE LET j == CHOOSE q \in w : TRUE IN [acc EXCEPT ![j] = <<acc[j][1], h[2]>>])

Small(n) == n > -10000 /\ n < 10000
Bin(op, x, y) ==
  CASE op \in {"+", "-", "*", "//", "%"} ->
        IF x.t \in Nums /\ y.t \in Nums
        THEN LET m == N(x)
                 n == N(y) IN
             IF op = "+" THEN VI(m + n) ELSE IF op = "-" THEN VI(m - n)
             ELSE IF op = "*" THEN IF Small(m) /\ Small(n) THEN VI(m * n) ELSE Open
             ELSE IF n = 0 THEN Err ELSE IF n < 0 THEN Open
             ELSE IF op = "//" THEN VI(m \div n) ELSE VI(m % n)
        ELSE IF op = "+" /\ x.t = y.t /\ x.t \in {"s", "l", "t"} THEN [x EXCEPT !.v = @ \o y.v]
        ELSE IF op = "%" /\ x.t = "s" THEN Open
        ELSE IF op = "*" /\ (x.t \in {"s", "l", "t"} \/ y.t \in {"s", "l", "t"}) THEN Open
        ELSE Err
    [] OTHER -> Open
Cmp(op, x, y) ==
  CASE op = "==" -> VB(Eq(x, y))
    [] op = "!=" -> VB(~Eq(x, y))
    [] op \in {"<", "<=", ">", ">="} ->
         IF x.t \in Nums /\ y.t \in Nums
         THEN VB(CASE op = "<" -> N(x) < N(y) [] op = "<=" -> N(x) <= N(y)
                   [] op = ">" -> N(x) > N(y) [] OTHER -> N(x) >= N(y))
         ELSE IF x.t = y.t /\ x.t \in {"s", "l", "t"} THEN Open ELSE Err
    [] op \in {"in", "not in"} ->
         LET r == IF y.t \in {"l", "t"} THEN VB(\E j \in DOMAIN y.v : Eq(x, y.v[j]))
                  ELSE IF y.t = "d" THEN (IF Hashable(x) THEN VB(Lookup(y.v, x) # {})
                                          ELSE IF x.t \in {"l", "d"} THEN Err ELSE Open)
                  ELSE IF y.t = "s" /\ x.t = "s" THEN Open ELSE Err IN
         IF Bad(r) \/ op = "in" THEN r ELSE VB(~r.v)
    [] op \in {"is", "is not"} ->
         IF x.t = "n" \/ y.t = "n" THEN VB((x.t = y.t) = (op = "is")) ELSE Open
    [] OTHER -> Open

Index(x, k) ==
  CASE x.t \in {"l", "t"} ->
        IF k.t \notin Nums THEN Err
        ELSE LET i == IF N(k) < 0 THEN N(k) + Len(x.v) ELSE N(k) IN
             IF i >= 0 /\ i < Len(x.v) THEN x.v[i + 1] ELSE Err
    [] x.t = "d" -> IF ~Hashable(k) THEN (IF k.t \in {"l", "d"} THEN Err ELSE Open)
                    ELSE LET w == Lookup(x.v, k) IN
                         IF w = {} THEN Err ELSE x.v[CHOOSE j \in w : TRUE][2]
    [] x.t = "s" -> Open
    [] OTHER -> Err
\* x[lo:hi], each bound an optional <<value>>
Clip(n, len) == IF n < 0 THEN (IF n + len < 0 THEN 0 ELSE n + len) ELSE IF n > len THEN len ELSE n
Slice(x, lo, hi) ==
  IF x.t \notin {"l", "t"} THEN (IF x.t = "s" THEN Open ELSE Err)
  ELSE IF (lo # <<>> /\ lo[1].t \notin Nums \cup {"n"}) \/ (hi # <<>> /\ hi[1].t \notin Nums \cup {"n"}) THEN Err
  ELSE LET n == Len(x.v)
           i == IF lo = <<>> \/ lo[1].t = "n" THEN 0 ELSE Clip(N(lo[1]), n)
           j == IF hi = <<>> \/ hi[1].t = "n" THEN n ELSE Clip(N(hi[1]), n) IN
       [x EXCEPT !.v = IF i >= j THEN <<>> ELSE SubSeq(@, i + 1, j)]

\* one step of a dotted name: key, then attribute
Dotted(x, n) ==
  CASE x.t = "d" -> LET w == Lookup(x.v, VS(<<n>>)) IN
                    IF w # {} THEN x.v[CHOOSE j \in w : TRUE][2]
                    ELSE IF n \in {"k", "m", "g", "nokey", "n", "o", "l", "me", "it"} THEN Err ELSE Open
    [] x.t = "o" -> IF n \in DOMAIN Attrs(x.v) THEN Attrs(x.v)[n] ELSE Err
    [] x.t \in {"i", "s", "l", "t", "n", "b", "f"} -> Err
    [] OTHER -> Open
\* Python's own attribute access
PyAttr(x, n) == CASE x.t = "o" -> IF n \in DOMAIN Attrs(x.v) THEN Attrs(x.v)[n] ELSE Err
                  [] OTHER -> Err
Auto(x) == IF x.t = "f" THEN CallF(x.v, <<>>, <<>>) ELSE x

RECURSIVE Ev(_, _), EvAll(_, _, _), Trail(_, _, _, _, _), EvKw(_, _, _), EvCmp(_, _, _, _, _), EvComp(_, _, _, _), EvCs(_, _, _)
EvAll(es, b, acc) ==
  IF es = <<>> THEN [t |-> "ok", v |-> acc]
  ELSE LET r == Ev(Head(es), b) IN
       IF Bad(r) THEN r ELSE EvAll(SubSeq(es, 2, Len(es)), b, Append(acc, r))
EvKw(ks, b, acc) ==
  IF ks = <<>> THEN [t |-> "ok", v |-> acc]
  ELSE LET r == Ev(Head(ks).e, b) IN
       IF Bad(r) THEN r
       ELSE IF \E j \in DOMAIN acc : acc[j][1] = VS(<<Head(ks).k>>) THEN Open
       ELSE EvKw(SubSeq(ks, 2, Len(ks)), b, Append(acc, <<VS(<<Head(ks).k>>), r>>))
Call(x, tr, b) ==
  LET as == EvAll(tr.args, b, <<>>) IN
  IF Bad(as) THEN as
  ELSE LET ks == EvKw(tr.kw, b, <<>>) IN
       IF Bad(ks) THEN ks
       ELSE LET st == IF tr.star = <<>> THEN VT(<<>>) ELSE Ev(tr.star[1], b) IN
            IF st.t = "skip" THEN st
            ELSE IF st.t \notin {"l", "t"} THEN (IF st.t \in {"s", "d"} THEN Open ELSE Err)
            ELSE IF x.t # "f" THEN Err
            ELSE CallF(x.v, as.v \o st.v, ks.v)
\* trailers tr applied to x; nm: names are looked up as dotted names;
\* named: x was just reached by a name
Trail(x, tr, nm, named, b) ==
  IF Bad(x) THEN x
  ELSE IF tr = <<>> THEN IF nm /\ named THEN Auto(x) ELSE x
  ELSE LET h == Head(tr)
           rest == SubSeq(tr, 2, Len(tr))
           y == IF nm /\ named /\ h.k # "call" THEN Auto(x) ELSE x IN
       IF Bad(y) THEN y
       ELSE CASE h.k = "attr" -> Trail(IF nm THEN Dotted(y, h.n) ELSE PyAttr(y, h.n), rest, nm, TRUE, b)
              [] h.k = "idx" -> LET i == Ev(h.a, b) IN
                                IF Bad(i) THEN i ELSE Trail(Index(y, i), rest, nm, FALSE, b)
              [] h.k = "slice" -> LET lo == EvAll(h.lo, b, <<>>)
                                      hi == EvAll(h.hi, b, <<>>) IN
                                  IF Bad(lo) THEN lo ELSE IF Bad(hi) THEN hi
                                  ELSE Trail(Slice(y, lo.v, hi.v), rest, nm, FALSE, b)
              [] h.k = "call" -> Trail(Call(y, h, b), rest, nm, FALSE, b)
EvCmp(x, ops, es, i, b) ==
  IF i > Len(ops) THEN VB(TRUE)
  ELSE LET y == Ev(es[i], b) IN
       IF Bad(y) THEN y
       ELSE LET r == Cmp(ops[i], x, y) IN
            IF Bad(r) \/ ~r.v \/ i = Len(ops) THEN r ELSE EvCmp(y, ops, es, i + 1, b)
\* items of a comprehension
EvComp(e, items, acc, b) ==
  IF items = <<>> THEN VL(acc)
  ELSE LET b2 == [b EXCEPT ![e.x] = Head(items)]
           c == IF e.if = <<>> THEN VB(TRUE) ELSE Ev(e.if[1], b2) IN
       IF Bad(c) THEN c
       ELSE IF ~Truth(c) THEN EvComp(e, SubSeq(items, 2, Len(items)), acc, b)
       ELSE LET r == Ev(e.a, b2) IN
            IF Bad(r) THEN r ELSE EvComp(e, SubSeq(items, 2, Len(items)), Append(acc, r), b)
\* pieces of a c'...' string
EvCs(ps, acc, b) ==
  IF ps = <<>> THEN VS(acc)
  ELSE LET h == Head(ps) IN
       IF h.e = "str" THEN EvCs(SubSeq(ps, 2, Len(ps)), acc \o h.v, b)
       ELSE LET r == Ev(h, b) IN
            IF Bad(r) THEN r ELSE IF r.t # "s" THEN Open
            ELSE EvCs(SubSeq(ps, 2, Len(ps)), acc \o r.v, b)

\* b: the values of comprehension and lambda variables
Ev(e, b) ==
  CASE e.e = "int" -> VI(e.v)
    [] e.e = "str" -> VS(e.v)
    [] e.e = "const" -> IF e.v = "None" THEN VN ELSE VB(e.v = "True")
    [] e.e = "name" -> IF e.n \notin DOMAIN Env THEN Err
                       ELSE Trail(Env[e.n], e.tr, TRUE, TRUE, b)
    [] e.e = "var" -> b[e.n]
    [] e.e = "dvar" -> Trail(b[e.n], e.tr, TRUE, TRUE, b)      \* $x of a bound variable
    [] e.e = "py" -> Trail(Ev(e.a, b), e.tr, FALSE, FALSE, b)
    [] e.e = "fn" -> LET r == Ev(e.a, b) IN IF Bad(r) THEN r ELSE CallF(e.n, <<r>>, <<>>)
    [] e.e = "bin" -> LET x == Ev(e.a, b)
                          y == Ev(e.b, b) IN
                      IF Bad(x) THEN x ELSE IF Bad(y) THEN y ELSE Bin(e.op, x, y)
    [] e.e = "cmp" -> LET x == Ev(e.a, b) IN IF Bad(x) THEN x ELSE EvCmp(x, e.ops, e.es, 1, b)
    [] e.e = "and" -> LET x == Ev(e.a, b) IN IF Bad(x) \/ ~Truth(x) THEN x ELSE Ev(e.b, b)
    [] e.e = "or" -> LET x == Ev(e.a, b) IN IF Bad(x) \/ Truth(x) THEN x ELSE Ev(e.b, b)
    [] e.e = "not" -> LET x == Ev(e.a, b) IN IF Bad(x) THEN x ELSE VB(~Truth(x))
    [] e.e = "neg" -> LET x == Ev(e.a, b) IN
                      IF Bad(x) THEN x ELSE IF x.t \in Nums THEN VI(0 - N(x)) ELSE Err
    [] e.e = "if" -> LET c == Ev(e.c, b) IN
                     IF Bad(c) THEN c ELSE IF Truth(c) THEN Ev(e.a, b) ELSE Ev(e.b, b)
    [] e.e = "list" -> LET r == EvAll(e.l, b, <<>>) IN IF Bad(r) THEN r ELSE VL(r.v)
    [] e.e = "tuple" -> LET r == EvAll(e.l, b, <<>>) IN IF Bad(r) THEN r ELSE VT(r.v)
    [] e.e = "dict" -> LET ks == EvAll([j \in DOMAIN e.l |-> e.l[j][1]], b, <<>>)
                           vs == EvAll([j \in DOMAIN e.l |-> e.l[j][2]], b, <<>>) IN
                       IF Bad(ks) THEN ks ELSE IF Bad(vs) THEN vs
                       ELSE IF \E j \in DOMAIN ks.v : ~Hashable(ks.v[j])
                       THEN IF \E j \in DOMAIN ks.v : ks.v[j].t \in {"l", "d"} THEN Err ELSE Open
                       ELSE VD(DictOf([j \in DOMAIN e.l |-> <<ks.v[j], vs.v[j]>>], <<>>))
    [] e.e = "comp" -> LET it == Ev(e.it, b) IN
                       IF Bad(it) THEN it
                       ELSE IF it.t \in {"l", "t"} THEN EvComp(e, it.v, <<>>, b)
                       ELSE IF it.t = "d" THEN EvComp(e, [j \in DOMAIN it.v |-> it.v[j][1]], <<>>, b)
                       ELSE IF it.t = "s" THEN Open ELSE Err
    [] e.e = "lam" -> LET x == Ev(e.arg, b) IN
                      IF Bad(x) THEN x ELSE Ev(e.a, [b EXCEPT ![e.x] = x])
    [] e.e = "cs" -> EvCs(e.ps, <<>>, b)
    [] OTHER -> Open
NoVars == [i |-> VN, j |-> VN]
Value(e) == Ev(e, NoVars)
=============================================================================
