------------------------------ MODULE GuardMC -------------------------------
(* Every kind of item, alone and inside or after every other, with each of  *)
(* the directives met disabled and each of its expressions refused.         *)
EXTENDS Guard
CONSTANTS Depth
VARIABLES cfg, st, ops, resps
Leaves == {"text", "comment", "mlcomment", "escaped", "ph", "phl", "phx", "phs", "phc",
           "psp", "psp2", "silent", "echo", "assert", "slurp", "set", "setglobal", "attr",
           "pass", "import", "from", "raw", "include", "del", "ternary", "pharg",
           "errorCatcher", "compiler", "compiler-settings", "breakstop"}
Inline == {"text", "ph", "phl", "phx", "phs", "psp", "psp2", "silent", "echo", "set",
           "setglobal"}
Lines == {"if1", "unless1", "for1", "repeat1", "capture1", "filter1", "cache1", "call1",
          "def1", "block1", "macro"}
Blocks == {"if", "ifelse", "elseif", "unless", "for", "repeat", "while", "continue",
           "try", "finally", "capture", "filter", "cache", "call", "def", "block",
           "closure", "return", "deco", "super"}
It(k, n, b) == [k |-> k, n |-> n, b |-> b]
Small == {<<It(k, 3, <<>>)>> : k \in Leaves}
  \cup {<<It(k, 3, <<It(l, 6, <<>>)>>), It("ph", 9, <<>>)>> : k \in Lines, l \in Inline}
  \cup {<<It(k, 3, <<It(l, 6, <<>>)>>), It("silent", 9, <<>>)>> : k \in Blocks, l \in Leaves}
\* (closures have no regions of their own)
Fit(p) == p[1].k # "closure" \/ p[1].b[1].k # "phc"
Met(p) == {IF s.a = "psp" THEN "psp" ELSE Lower(s.n) :
             s \in {x \in Range(Steps(p, 1)) : x.a \in {"dir", "psp"}}}
Asked(p) == UNION {Range(s.s) \cup Range(s.raw) :
                     s \in {x \in Range(Steps(p, 1)) : x.a = "ex"}}
Nums(p) == {3, 4, 6, 7, 9} \cap Asked(p)
C(dis, en, hooks) == [dis |-> dis, en |-> en, hd |-> 1, hp |-> 1, hooks |-> hooks, up |-> FALSE]
H(k, n) == [k |-> k, t |-> "", n |-> n]
MCfgs == {C(<<>>, <<>>, <<>>), C(<<>>, <<>>, <<H("inc", 0), H("dbl", 0)>>)}
  \cup {C(<<d>>, <<>>, <<H("id", 0)>>) : d \in {"psp", "if", "end", "def", "block",
          "silent", "set", "for", "cache", "call", "filter", "raw", "include", "@",
          "super", "compiler", "else", "break", "import", "defmacro", "return"}}
  \cup {C(<<>>, <<d, "silent">>, <<>>) : d \in {"end", "psp", "if", "set"}}
  \cup {C(<<>>, <<>>, <<H("id", 0), H("ban", n)>>) : n \in {3, 4, 6}}
Sure(p) == \A i \in 1..Len(Runs(p, 1)) : Runs(p, 1)[i].sure
MOps(c, s, n) == {[op |-> "compile", prog |-> p] :
                    p \in {q \in Small : Fit(q) /\ (c.hooks = <<>> \/ c.hooks[1].k # "inc" \/ Sure(q))}}
E == INSTANCE Explore WITH Cfgs <- MCfgs, InitSt <- GInit, Apply <- GApply,
                           Ops <- MOps, Depth <- Depth, EmitAll <- TRUE
Init == E!EInit
Next == E!ENext

\* Design: what is disabled, or asked of a hook that refuses it, never runs;
\* and nothing else is turned away.
Kept == \A i \in 1..Len(ops) :
  LET p == ops[i].prog  r == resps[i] IN
  /\ (\E d \in Met(p) : Forbidden(cfg, d)) => r.res # "ok"
  /\ (\E k \in 1..Len(cfg.hooks) : cfg.hooks[k].k = "ban" /\ cfg.hooks[k].n \in Nums(p))
       => r.res # "ok"
  /\ (r.res = "ok" \/ r.used = <<>>)
  /\ (cfg.dis = <<>> /\ cfg.en = <<>>
      /\ \A k \in 1..Len(cfg.hooks) : cfg.hooks[k].k # "ban") => r.res = "ok"
=============================================================================
