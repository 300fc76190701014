------------------------------- MODULE VMEnum -------------------------------
(***************************************************************************)
(* Every small program over a chosen alphabet, run to completion by the    *)
(* abstract machine; each one is emitted with the answer the machine gives *)
(* and replayed in the real code (specification -> code).                  *)
(***************************************************************************)
EXTENDS CheetahVM, Json, IOUtils, Emit
CONSTANTS Family, Full
VARIABLES prog, m, steps, ans
vars == <<prog, m, steps, ans>>

T(s) == [s |-> "text", v |-> s]
V(x) == [e |-> "v", x |-> x]
C(v) == [e |-> "c", v |-> v]
Tr(t, e) == [e |-> "call", f |-> "tr", args |-> <<C(VStr(t)), e>>]
PutE(e) == [s |-> "put", e |-> e]
L12 == [e |-> "list", l |-> <<C(VInt(1)), C(VInt(2))>>]
CtrlNS == [ tr |-> [t |-> "f", v |-> "tr"], boom |-> [t |-> "f", v |-> "boom"],
            Boom |-> [t |-> "x", v |-> "Boom"], SubBoom |-> [t |-> "x", v |-> "SubBoom"],
            up |-> [t |-> "f", v |-> "up"], ident |-> [t |-> "f", v |-> "ident"],
            kwshow |-> [t |-> "f", v |-> "kwshow"],
            Brackets |-> [t |-> "k", v |-> "Brackets"],
            Angle |-> [t |-> "k", v |-> "Angle"],
            p |-> VStr("<p>"), n |-> VInt(2) ]

\* ------------------------------------------------- control-flow family
Atoms(loop, stop) ==
  {<<T("a")>>, <<PutE(Tr("t", C(VInt(7)))), T("b")>>,
   <<[s |-> "raise", x |-> "Boom"], T("c")>>,
   <<[s |-> "raise", x |-> "ValueError"]>>,
   <<[s |-> "return", e |-> C(VInt(5))], T("d")>>}
  \cup (IF loop THEN {<<T("e"), [s |-> "break"], T("f")>>,
                      <<T("g"), [s |-> "continue"], T("h")>>} ELSE {})
  \cup (IF stop THEN {<<T("i"), [s |-> "stop"], T("j")>>} ELSE {})

Conds == {C(VInt(0)), C(VInt(1)), [e |-> "bin", op |-> "==", a |-> V("i"), b |-> C(VInt(1))]}
CondsOut == {C(VInt(0)), C(VInt(1))}

\* compound statements over sets of bodies: B in the enclosing context,
\* BL inside a loop, BF where a finally clause follows
Opt(S) == S \cup {<<>>}
Ifs(cs, B) == {[s |-> "if", cs |-> <<[e |-> c, body |-> b]>>] : c \in cs, b \in B}
        \cup {[s |-> "if", cs |-> <<[e |-> c, body |-> b],
                                    [e |-> [e |-> "else"], body |-> d]>>] :
              c \in cs, b \in B, d \in B}
Unl(cs, B) == {[s |-> "unless", e |-> c, body |-> b, els |-> d] :
               c \in cs, b \in B, d \in Opt(B)}
Loops(B, BL) ==
  {[s |-> "for", x |-> "i", e |-> L12, body |-> b, els |-> d] : b \in BL, d \in Opt(B)}
  \cup {[s |-> "repeat", e |-> C(VInt(2)), body |-> b, els |-> <<>>] : b \in BL}
  \cup {[s |-> "while", e |-> [e |-> "bin", op |-> "<", a |-> V("w"), b |-> C(VInt(2))],
         body |-> <<[s |-> "set", x |-> "w", e |-> [e |-> "bin", op |-> "+",
                      a |-> V("w"), b |-> C(VInt(1))]]>> \o b, els |-> d] :
        b \in BL, d \in Opt(B)}
Exs == {<<"Boom">>, <<"">>, <<"ValueError", "Boom">>, <<"Exception">>}
Tries(B, BF, B1) ==
  {[s |-> "try", body |-> b,
    ex |-> [j \in DOMAIN x |-> [c |-> x[j], body |-> IF j = 1 THEN h ELSE <<T("k")>>]],
    els |-> e, fin |-> <<>>] : b \in B, x \in Exs, h \in B1, e \in {<<>>, <<T("l")>>}}
  \cup {[s |-> "try", body |-> b, ex |-> <<>>, els |-> <<>>, fin |-> f] : b \in BF, f \in B1}
  \cup {[s |-> "try", body |-> b, ex |-> <<[c |-> "Boom", body |-> h]>>,
         els |-> <<>>, fin |-> <<T("n")>>] : b \in BF, h \in BF}

Wrap(S) == {<<T("<"), x, T(">")>> : x \in S}
A0 == Atoms(FALSE, TRUE)
AF == Atoms(FALSE, FALSE)
AL == Atoms(TRUE, TRUE)
ALF == Atoms(TRUE, FALSE)
Comp(cs, B, BL, BF) == Ifs(cs, B) \cup Unl(cs, B) \cup Loops(B, BL) \cup Tries(B, BF, BF)
L1 == Comp(CondsOut, A0, AL, AF)                   \* one level, outside loops
L1F == Comp(CondsOut, AF, ALF, AF)
L1L == Comp(Conds, AL, AL, ALF)                    \* one level, inside a loop
L1LF == Comp(Conds, ALF, ALF, ALF)
\* two levels: a compound statement in a loop, in a try, in a condition
TwoLevel ==
  Loops({<<T("m")>>}, Wrap(L1L))
  \cup {[s |-> "try", body |-> b, ex |-> <<[c |-> "Boom", body |-> <<T("x")>>]>>,
         els |-> <<T("y")>>, fin |-> <<>>] : b \in Wrap(L1)}
  \cup {[s |-> "try", body |-> <<[s |-> "raise", x |-> "Boom"]>>,
         ex |-> <<[c |-> "Boom", body |-> b]>>, els |-> <<>>, fin |-> <<>>] : b \in Wrap(L1)}
  \cup {[s |-> "try", body |-> b, ex |-> <<>>, els |-> <<>>, fin |-> <<T("x")>>] :
         b \in Wrap(L1F)}
  \cup {[s |-> "try", body |-> <<[s |-> "raise", x |-> "Boom"]>>, ex |-> <<>>,
         els |-> <<>>, fin |-> b] : b \in Wrap(L1F)}
  \cup {[s |-> "if", cs |-> <<[e |-> C(VInt(0)), body |-> <<T("x")>>],
                              [e |-> C(VInt(1)), body |-> b]>>] : b \in Wrap(L1)}
SetW == [s |-> "set", x |-> "w", e |-> C(VInt(0))]
ControlProgs == {<<SetW, x, T(".")>> : x \in L1}
           \cup (IF Full THEN {<<SetW, x, T(".")>> : x \in TwoLevel} ELSE {})

\* ------------------------------------------------- region/filter family
\* captured output, call regions, filters and methods, left in every way
RAtoms(loop) ==
  {<<T("a"), PutE(V("p"))>>, <<T("c"), [s |-> "raise", x |-> "Boom"], T("d")>>,
   <<T("e"), [s |-> "return", e |-> V("p")], T("f")>>,
   <<T("k"), [s |-> "stop"], T("l")>>,
   <<[s |-> "putm", f |-> "meth", args |-> <<>>]>>}
  \cup (IF loop THEN {<<T("g"), [s |-> "break"], T("h")>>,
                      <<T("i"), [s |-> "continue"], T("j")>>} ELSE {})
Regs(B) ==
  {[s |-> "capture", x |-> "q", body |-> b] : b \in B}
  \cup {[s |-> "call", f |-> f, args |-> <<>>, parts |-> <<[n |-> "", body |-> b]>>] :
         b \in B, f \in {"up", "boom", "meth2"}}
  \cup {[s |-> "call", f |-> "kwshow", args |-> <<>>,
         parts |-> <<[n |-> "a", body |-> b], [n |-> "b", body |-> <<T("z")>>]>>] : b \in B}
  \cup {[s |-> "filter", f |-> f, body |-> b] : b \in B, f \in {"WebSafe", "Brackets", "None"}}
PostR == <<T("|"), PutE(V("p")), [s |-> "putm", f |-> "meth", args |-> <<>>]>>
R1 == Regs(RAtoms(FALSE))
R1L == Regs(RAtoms(TRUE))
R2 == Regs({<<T("<"), x, T(">"), PutE(V("p"))>> : x \in R1})
R2L == Regs({<<T("<"), x, T(">"), PutE(V("p"))>> : x \in R1L})
Ctx1(S) == {<<x>> \o PostR : x \in S}
CtxTry(S) == {<<[s |-> "try", body |-> <<x, T("1")>>, ex |-> <<[c |-> "Boom", body |-> <<T("X"), PutE(V("p"))>>]>>,
                 els |-> <<>>, fin |-> <<>>]>> \o PostR : x \in S}
CtxLoop(S) == {<<[s |-> "for", x |-> "i", e |-> L12, body |-> <<x, T("1")>>, els |-> <<>>]>> \o PostR : x \in S}
RegionProgs == Ctx1(R1) \cup CtxTry(R1) \cup CtxLoop(R1L)
               \cup (IF Full THEN Ctx1(R2) \cup CtxTry(R2) \cup CtxLoop(R2L) ELSE {})

\* ---------------------------------------------------------- scope family
\* every short main body and method body over assignments and uses of one
\* variable; two objects of the class, rendered 1, 2, 1
SP(x) == PutE(V(x))
HasX == PutE([e |-> "has", x |-> "x"])
ScopeAtoms == {SP("x"), [s |-> "set", x |-> "x", e |-> C(VStr("L"))],
               [s |-> "gset", x |-> "x", e |-> C(VStr("G"))], HasX,
               [s |-> "putm", f |-> "meth", args |-> <<>>]}
MainAtoms == ScopeAtoms \cup
  {[s |-> "try", body |-> <<[s |-> "del", x |-> "x"]>>, ex |-> <<[c |-> "", body |-> <<T("!")>>]>>,
    els |-> <<>>, fin |-> <<>>],
   [s |-> "for", x |-> "x", e |-> L12, body |-> <<T(",")>>, els |-> <<>>],
   [s |-> "capture", x |-> "x", body |-> <<T("C"), SP("x")>>]}
MethAtoms == ScopeAtoms \ {[s |-> "putm", f |-> "meth", args |-> <<>>]}
ScopeProgs == {[r |-> <<a, b, c, SP("x")>>, m |-> <<d, e>>] :
                 a \in MainAtoms, b \in MainAtoms, c \in MainAtoms,
                 d \in MethAtoms, e \in IF Full THEN MethAtoms ELSE {SP("x")}}

\* ------------------------------------------------------------ the machine
Progs == CASE Family = "control" -> {[r |-> p, m |-> <<>>] : p \in ControlProgs}
           [] Family = "region" -> {[r |-> p, m |-> <<T("m"), PutE(V("p"))>>] : p \in RegionProgs}
           [] Family = "scope" -> ScopeProgs
Hist == IF Family = "scope" THEN <<1, 2, 1>> ELSE <<1>>

Meths(p) ==
  [ respond |-> [args |-> <<>>, body |-> p.r],
    meth |-> [args |-> <<>>, body |-> p.m],
    meth2 |-> [args |-> <<[n |-> "t", d |-> <<>>]>>,
               body |-> <<T("{"), PutE(V("t")), T("}")>>] ]
TheNS == IF Family = "scope" THEN Bind(CtrlNS, "x", VStr("N")) ELSE CtrlNS
World(p) ==
  [ cls |-> << [base |-> 0, attrs |-> EmptyFn, meths |-> Meths(p)] >>,
    objs |-> << [cls |-> 1, sl |-> <<1>>, filt |-> "Filter"],
                [cls |-> 1, sl |-> <<1>>, filt |-> "Filter"] >>,
    ns |-> <<TheNS>> ]

Init == /\ prog \in Progs
        /\ m = StartRender(World(prog), MInit(World(prog)), 1, "respond")
        /\ steps = 0
        /\ ans = <<>>
Answer(mm) == Result(mm, FALSE) \o (IF mm.log # "" THEN "|log:" \o mm.log ELSE "")
Go == /\ Running(m) /\ steps < 300
      /\ m' = Step(World(prog), m) /\ steps' = steps + 1 /\ prog' = prog
      /\ ans' = IF Running(m') THEN ans ELSE Append(ans, Answer(m'))
      /\ IF Len(ans') = Len(Hist) THEN Emit([p |-> prog, a |-> ans']) ELSE TRUE
Render == /\ ~Running(m) /\ Len(ans) < Len(Hist)
          /\ m' = StartRender(World(prog), m, Hist[Len(ans) + 1], "respond")
          /\ UNCHANGED <<prog, steps, ans>>
Next == Go \/ Render

StackOK == Running(m) =>
    Len(m.out) = 1 + Cardinality({j \in 1..Len(m.k) : m.k[j].k \in {"cap", "creg", "meth"}})
FilterRestored == ~Running(m) => m.cur[1] = "Filter"
LoopSignalsCaught == (~Running(m)) => m.sig.k \notin {"brk", "cont"}
Terminates == steps < 300
\* global variables of one object are never another's
ObjectsApart == \A x \in DOMAIN m.gs[2] : Len(ans) >= 1 /\ (Len(ans) > 1 \/ m.o = 2)
CallerUntouched == m.ns = <<TheNS>>
=============================================================================
