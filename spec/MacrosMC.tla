------------------------------ MODULE MacrosMC ------------------------------
(* Every document of at most three pieces around one given macro and one    *)
(* that it defines itself.                                                   *)
EXTENDS Macros
CONSTANTS Depth
VARIABLES cfg, st, ops, resps
A == Text("a")
X == [k |-> "v", n |-> "x"]
S == [k |-> "set", n |-> "x", s |-> "s1"]
Src == [k |-> "src"]
Arg == [k |-> "arg", n |-> "p"]
Eol == [k |-> "eol"]
If(n, b) == [k |-> "if", n |-> n, b |-> b]
For(b) == [k |-> "for", n |-> "x", b |-> b]
Call(n, a, t, b, f) == [k |-> "call", n |-> n, a |-> a, as |-> t, b |-> b, f |-> f]
P == [p |-> "dp"]
Bodies == {<<Src>>, <<Src, Arg, Src>>, <<S, Src>>, <<For(<<Src, X, A>>)>>,
           <<If("F", <<Src, A>>), A, Eol>>, <<A>>}
Given1 == {<<>>} \cup {<<[n |-> "mac1", ps |-> P, b |-> b, via |-> v]>> :
                         b \in Bodies, v \in {"fn", "obj"}}
MCfgs == {[macros |-> m, L |-> <<"l1", "l2">>, env |-> [x |-> "X"]] : m \in Given1}
Calls1(f, c) ==
  IF c.macros = <<>> THEN {}
  ELSE {Call("mac1", a.a, a.t, b, f) :
          a \in {[a |-> Nothing, t |-> ""], [a |-> [p |-> "q"], t |-> " p='q'"]},
          b \in {<<A>>, <<X>>, <<S, A>>, <<A, If("T", <<X>>)>>}}
Def2(c) == {[k |-> "def", f |-> "inline",
             d |-> [n |-> "mac2", ps |-> P, via |-> "dir", b |-> b]] :
              b \in {<<Src, A>>, <<For(<<Src, A>>)>>}
                    \cup (IF c.macros = <<>> THEN {}
                          ELSE {<<Call("mac1", Nothing, "", <<Src>>, "inline"), Src>>,
                                <<[k |-> "via", n |-> "mac1"]>>})}
Call2 == {Call("mac2", Nothing, "", b, "inline") : b \in {<<X>>, <<S, A>>}}
Pre == <<A, [k |-> "pre", n |-> "mac2"]>>
Inl(c) == {<<A>>, <<X>>, <<S>>} \cup {<<q>> : q \in Calls1("inline", c)}
First(c) == {<<>>} \cup {<<q>> : q \in Calls1("short", c) \cup Calls1("block", c)}
With2(c) == {Pre \o <<d>> \o <<q>> : d \in Def2(c), q \in Call2} \cup {<<>>}
MOps(c, s, n) == {[op |-> "doc", doc |-> a \o b \o i \o <<A, X>>] :
                    a \in First(c), b \in With2(c), i \in Inl(c)}
E == INSTANCE Explore WITH Cfgs <- MCfgs, InitSt <- MacInit, Apply <- MacApply,
                           Ops <- MOps, Depth <- Depth, EmitAll <- TRUE
Init == E!EInit
Next == E!ENext

\* Design: once expanded, no macro is left, and a document without calls is
\* its own expansion
RECURSIVE Free(_)
Free(is) == \A i \in 1..Len(is) :
              /\ is[i].k \in {"t", "v", "set", "if", "for"}
              /\ is[i].k \in {"if", "for"} => Free(is[i].b)
Exp(c, d) == Expand(d, [mac |-> Given(c.macros), log |-> <<>>, out |-> <<>>]).out
Expanded == \A i \in 1..Len(ops) :
              LET d == Exp(cfg, ops[i].doc) IN Free(d) /\ Exp(cfg, d) = d
=============================================================================
