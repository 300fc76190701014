------------------------------- MODULE Guard --------------------------------
(***************************************************************************)
(* What the compiler settings let a template do.  A template is a sequence *)
(* of items of many kinds; those with a body hold items.  An item with     *)
(* number n has n (and n + 1) in its expressions.                          *)
(*   Steps  what the compiler meets, in the order of the text: directives  *)
(*     beginning ("dir") and done ("post"), placeholders, and expressions  *)
(*     ("ex": of kind t, with the numbers s; raw: those of the source)     *)
(*   Runs   the numbers the template uses when it runs, in order           *)
(* The settings: directives disabled or alone enabled, how many hooks are  *)
(* called before and after directives and placeholders, and the hooks      *)
(* expressions pass through: one refuses ("ban") a kind of expression or a *)
(* number, the others change the numbers.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

D(d) == <<[a |-> "dir", n |-> d]>>
P(d) == <<[a |-> "post", n |-> d]>>
Ex(t, s) == <<[a |-> "ex", t |-> t, s |-> s, raw |-> <<>>]>>
Simple(d, s) == D(d) \o Ex(d, s) \o P(d)
End == D("end") \o P("end")
Ph(s, raw) == <<[a |-> "phpre"], [a |-> "ex", t |-> "placeholder", s |-> s, raw |-> raw],
                [a |-> "phpost"]>>
Called == Ph(<<>>, <<>>)
Fn(d, n) == D(d) \o Ex("def", <<n>>)

RECURSIVE Steps(_, _)
ItemSteps(it) ==
  LET n == it.n  k == it.k  b == Steps(it.b, 1) IN
  CASE k \in {"text", "comment", "mlcomment", "escaped"} -> <<>>
    [] k \in {"ph", "phl", "phx", "phs", "phc"} -> Ph(<<n>>, <<n>>)
    [] k = "pharg" -> Ph(<<n>>, <<n, n + 1>>)
    [] k \in {"psp", "psp2"} -> <<[a |-> "psp"]>> \o Ex("psp", <<n>>)
    [] k \in {"silent", "echo", "assert", "set", "attr"} -> Simple(k, <<n>>)
    [] k = "setglobal" -> Simple("set", <<n>>)
    [] k \in {"import", "from", "pass", "breakstop"} ->
         (IF k = "breakstop"
          THEN Simple("if", <<n>>) \o Simple("stop", <<>>) \o End
          ELSE Simple(k, <<>>))
    [] k = "del" -> Simple("set", <<n>>) \o Simple("del", <<>>)
    [] k = "ternary" -> Simple("if", <<n, n + 1>>)
    [] k = "if" -> Simple("if", <<n>>) \o b \o End
    [] k = "ifelse" -> Simple("if", <<n>>) \o b \o Simple("elif", <<n + 1>>)
                       \o Simple("else", <<>>) \o End
    [] k = "elseif" -> Simple("if", <<n>>) \o Simple("else", <<n + 1>>) \o b \o End
    [] k = "if1" -> D("if") \o Ex("if", <<n>>) \o b \o P("if")
    [] k = "capture" -> Simple(k, <<>>) \o b \o End
    [] k = "capture1" -> D("capture") \o Ex("capture", <<>>) \o b \o P("capture")
    [] k \in {"unless", "for", "repeat", "filter", "cache"} ->
         Simple(k, <<n>>) \o b \o End
    [] k \in {"unless1", "for1", "repeat1", "filter1", "cache1", "call1"} ->
         LET d == SubSeq(k, 1, Len(k) - 1) IN D(d) \o Ex(d, <<n>>) \o b \o P(d)
    [] k = "while" -> Simple(k, <<n>>) \o b \o Simple("break", <<>>) \o End
    [] k = "continue" -> Simple("for", <<n>>) \o b \o Simple("continue", <<>>)
                         \o Simple("silent", <<n + 1>>) \o End
    [] k = "try" -> Simple(k, <<>>) \o b \o Simple("raise", <<n>>)
                    \o Simple("except", <<>>) \o End
    [] k = "finally" -> Simple("try", <<>>) \o b \o Simple(k, <<>>)
                        \o Simple("silent", <<n>>) \o End
    [] k = "call" -> Simple(k, <<n>>) \o b \o Simple("arg", <<>>) \o End
    [] k = "def" -> Fn(k, n) \o P(k) \o b \o End \o Called
    [] k = "def1" -> Fn("def", n) \o b \o P("def") \o Called
    [] k = "block" -> Fn(k, n) \o P(k) \o b \o End
    [] k = "block1" -> Fn("block", n) \o b \o P("block")
    [] k = "closure" -> Fn(k, n) \o P(k) \o b \o End \o Called
    [] k = "return" -> Fn("def", n) \o P("def") \o b \o Simple("return", <<n + 1>>)
                       \o End \o Called
    [] k = "deco" -> D("@") \o Ex("decorator", <<n>>) \o Fn("def", n + 1) \o P("def")
                     \o P("@") \o b \o End \o Called
    [] k = "super" -> D("def") \o Ex("def", <<>>) \o P("def") \o Simple("super", <<n>>)
                      \o b \o End \o Called
    [] k = "raw" -> D(k) \o P(k)
    [] k = "slurp" -> D(k) \o P(k)
    [] k = "include" -> Simple(k, <<n>>)
    [] k = "errorCatcher" -> D(k) \o Ex("errorcatcher", <<>>) \o P(k) \o End
    [] k = "compiler" -> Simple(k, <<n>>)
    [] k = "compiler-settings" -> D(k) \o Ex("compilerSettings", <<n>>) \o P(k)
    [] k = "macro" -> D("defmacro") \o P("defmacro") \o D("m" \o ToString(n))
                      \o b \o P("m" \o ToString(n))
Steps(is, i) == IF i > Len(is) THEN <<>> ELSE ItemSteps(is[i]) \o Steps(is, i + 1)

\* the numbers used when the template runs; sure: whether what a hook has made
\* of the number is known to be what is used
R(n) == <<[n |-> n, sure |-> TRUE]>>
U(n) == <<[n |-> n, sure |-> FALSE]>>
RECURSIVE Runs(_, _)
ItemRuns(it) ==
  LET n == it.n  k == it.k  b == Runs(it.b, 1) IN
  CASE k \in {"ph", "phl", "phx", "phs", "phc", "psp", "psp2", "silent", "echo",
              "assert", "set", "del", "breakstop"} -> R(n)
    [] k = "pharg" -> R(n) \o U(n + 1)
    [] k \in {"setglobal", "ternary"} -> U(n)
    [] k \in {"if", "ifelse", "if1", "unless", "for", "repeat", "filter", "unless1",
              "for1", "repeat1", "filter1", "while", "continue"} -> R(n) \o b
    [] k = "elseif" -> R(n) \o R(n + 1) \o b
    [] k \in {"capture", "cache", "capture1", "cache1", "def", "def1", "block",
              "block1", "closure", "deco", "macro"} -> b
    [] k \in {"call", "call1"} -> b \o U(n)
    [] k = "return" -> b \o R(n + 1)
    [] k \in {"try", "finally"} -> b \o R(n)
    [] k = "super" -> U(n) \o b
    [] OTHER -> <<>>
Runs(is, i) == IF i > Len(is) THEN <<>> ELSE ItemRuns(is[i]) \o Runs(is, i + 1)

\* ------------------------------------------------------------- the settings
Range(s) == {s[i] : i \in 1..Len(s)}
Lower(d) == IF d = "errorCatcher" THEN "errorcatcher" ELSE d
Forbidden(c, d) == \/ Lower(d) \in Range(c.dis)
                   \/ (c.en # <<>> /\ Lower(d) \notin Range(c.en))
Change(h, n) == IF h.k = "inc" THEN n + 1 ELSE IF h.k = "dbl" THEN 2 * n ELSE n
Map(h, s) == [i \in 1..Len(s) |-> Change(h, s[i])]
RECURSIVE Final(_, _, _)
Final(hs, i, n) == IF i > Len(hs) THEN n ELSE Final(hs, i + 1, Change(hs[i], n))

Times(m, h, d) == [i \in 1..m |-> [h |-> h, i |-> i, n |-> d]]
\* an expression goes from hook to hook
RECURSIVE Through(_, _, _, _)
Through(hs, i, x, log) ==
  IF i > Len(hs) THEN [log |-> log, ok |-> TRUE]
  ELSE LET e == [h |-> "expr", i |-> i, n |-> x.t, s |-> x.s, raw |-> x.raw] IN
       IF hs[i].k = "ban" /\ (x.t = hs[i].t \/ hs[i].n \in Range(x.s) \cup Range(x.raw))
       THEN [log |-> Append(log, e), ok |-> FALSE]
       ELSE Through(hs, i + 1, [x EXCEPT !.s = Map(hs[i], x.s)], Append(log, e))

RECURSIVE Compile(_, _, _, _)
Compile(c, ss, i, log) ==
  IF i > Len(ss) THEN [res |-> "ok", log |-> log]
  ELSE LET s == ss[i]
           go(l) == IF Len(l) >= 0 THEN Compile(c, ss, i + 1, l) ELSE [res |-> "", log |-> l] IN
    IF s.a \in {"dir", "psp"} THEN
      LET d == IF s.a = "psp" THEN "psp" ELSE s.n IN
      IF Forbidden(c, d)
      THEN [res |-> "forbidden", log |-> log \o Times(c.hd, "disabled", Lower(d))]
      ELSE go(IF s.a = "psp" THEN log ELSE log \o Times(c.hd, "pre", d))
    ELSE IF s.a = "post" THEN go(log \o Times(c.hd, "post", s.n))
    ELSE IF s.a \in {"phpre", "phpost"} THEN go(log \o Times(c.hp, s.a, ""))
    ELSE LET t == Through(c.hooks, 1, s, log) IN
         IF t.ok THEN go(t.log) ELSE [res |-> "refused", log |-> t.log]

\* the numbers used; those not sure may be the original ones
Used(c, rs, w) == [i \in 1..Len(rs) |-> IF rs[i].sure \/ w THEN Final(c.hooks, 1, rs[i].n)
                                        ELSE rs[i].n]
GInit(cfg) == [c |-> cfg]
GApply(st, o) ==
  LET k == Compile(st.c, Steps(o.prog, 1), 1, <<>>)
      rs == Runs(o.prog, 1) IN
  IF k.res # "ok" THEN {[st |-> st, resp |-> [res |-> k.res, log |-> k.log, used |-> <<>>]]}
  ELSE {[st |-> st, resp |-> [res |-> "ok", log |-> k.log, used |-> Used(st.c, rs, w)]] :
          w \in BOOLEAN}
=============================================================================
