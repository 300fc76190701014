------------------------------- MODULE Macros -------------------------------
(***************************************************************************)
(* Macro directives.  A document is a sequence of items:                    *)
(*   [k |-> "t", s]        text                                             *)
(*   [k |-> "v", n]        placeholder of a variable                        *)
(*   [k |-> "set", n, s]   local assignment of a string                     *)
(*   [k |-> "if", n, b]    n = "T" or "F"                                   *)
(*   [k |-> "for", n, b]   n takes every string of cfg.L                    *)
(*   [k |-> "pre", n]      the name of a macro where it is not one yet      *)
(*   [k |-> "def", d]      definition of macro d = [n, ps, b, via], ps its  *)
(*                         parameters with their defaults                   *)
(*   [k |-> "call", n, a, as, b, f]  call with arguments a (as: their text) *)
(*                         around b; f = "inline", "block" or "short"       *)
(* The body of a macro has besides                                          *)
(*   [k |-> "src"], [k |-> "arg", n], [k |-> "when", n, s, b] (argument n   *)
(*   is s), [k |-> "eol"] (the line end a short call swallowed), and        *)
(*   [k |-> "via", n] (macro n applied as a function to src).               *)
(* Expansion comes first, over the whole text; what is rendered is the     *)
(* expanded document.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Nothing == [x \in {} |-> ""]
Bind(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Over(f, g) == [y \in DOMAIN f \cup DOMAIN g |-> IF y \in DOMAIN g THEN g[y] ELSE f[y]]
Text(s) == [k |-> "t", s |-> s]

\* the source text of items (inline forms only)
RECURSIVE Ser(_)
Ser(is) ==
  IF is = <<>> THEN ""
  ELSE LET q == Head(is) IN
    (CASE q.k = "t" -> q.s
       [] q.k = "v" -> "${" \o q.n \o "}"
       [] q.k = "set" -> "#set $" \o q.n \o " = '" \o q.s \o "'#"
       [] q.k = "if" -> "#if $" \o q.n \o "#" \o Ser(q.b) \o "#end if#"
       [] q.k = "for" -> "#for $" \o q.n \o " in $L#" \o Ser(q.b) \o "#end for#"
       [] q.k = "call" -> "#" \o q.n \o q.as \o "#" \o Ser(q.b) \o "#end " \o q.n \o "#")
    \o Ser(Tail(is))

ArgNames == <<"p", "q">>
ArgText(a) == (IF "p" \in DOMAIN a THEN "p=" \o a["p"] \o ";" ELSE "")
              \o (IF "q" \in DOMAIN a THEN "q=" \o a["q"] \o ";" ELSE "")

\* the source macro d gives for [src, args, short]; with the calls of other
\* macros that are made meanwhile
RECURSIVE Apply1(_, _, _), Body(_, _, _, _)
Apply1(d, c, mac) ==
  LET r == Body(d.b, [c EXCEPT !.args = Over(d.ps, @)], mac, <<>>) IN
  [src |-> r.src,
   log |-> (IF d.via = "dir" THEN <<>>
            ELSE <<d.n \o "(" \o ArgText(c.args) \o ")" \o Ser(c.src)>>) \o r.log]
Body(is, c, mac, log) ==
  IF is = <<>> THEN [src |-> <<>>, log |-> log]
  ELSE LET q == Head(is)
           x == CASE q.k = "src" -> [src |-> c.src, log |-> <<>>]
                  [] q.k = "arg" -> [src |-> <<Text(c.args[q.n])>>, log |-> <<>>]
                  [] q.k = "eol" -> [src |-> IF c.short THEN <<Text("\n")>> ELSE <<>>, log |-> <<>>]
                  [] q.k = "when" -> IF c.args[q.n] = q.s THEN Body(q.b, c, mac, <<>>)
                                     ELSE [src |-> <<>>, log |-> <<>>]
                  [] q.k = "via" -> Apply1(mac[q.n], [src |-> c.src, args |-> Nothing, short |-> FALSE], mac)
                  [] q.k \in {"if", "for", "call"} ->
                       LET r == Body(q.b, c, mac, <<>>) IN
                       [src |-> <<[q EXCEPT !.b = r.src]>>, log |-> r.log]
                  [] OTHER -> [src |-> <<q>>, log |-> <<>>]
           rest == Body(Tail(is), c, mac, log \o x.log) IN
       [src |-> x.src \o rest.src, log |-> rest.log]

\* e: [mac, log, out]
RECURSIVE Expand(_, _)
Expand(is, e) ==
  IF is = <<>> THEN e
  ELSE LET q == Head(is)
           e2 ==
    CASE q.k = "def" -> [e EXCEPT !.mac = Bind(@, q.d.n, q.d)]
      [] q.k = "pre" -> [e EXCEPT !.out = Append(@, Text("#" \o q.n \o " "))]
      [] q.k \in {"if", "for"} ->
           LET r == Expand(q.b, [e EXCEPT !.out = <<>>]) IN
           [r EXCEPT !.out = Append(e.out, [q EXCEPT !.b = r.out])]
      [] q.k = "call" ->
           LET src == IF q.f = "block" THEN Append(q.b, Text("\n")) ELSE q.b
               r == Apply1(e.mac[q.n], [src |-> src, args |-> q.a, short |-> q.f = "short"], e.mac) IN
           Expand(r.src, [e EXCEPT !.log = @ \o r.log])
      [] OTHER -> [e EXCEPT !.out = Append(@, q)]
       \* (the comparison makes TLC evaluate e2 here)
       IN IF Len(e2.out) >= 0 /\ Len(e2.log) >= 0 THEN Expand(Tail(is), e2) ELSE e

\* s: [loc, out]
RECURSIVE Render(_, _, _), Turns(_, _, _, _)
Render(cfg, is, s) ==
  IF is = <<>> THEN s
  ELSE LET q == Head(is)
           s2 ==
    CASE q.k = "t" -> [s EXCEPT !.out = @ \o q.s]
      [] q.k = "v" -> [s EXCEPT !.out = @ \o (IF q.n \in DOMAIN s.loc THEN s.loc[q.n] ELSE cfg.env[q.n])]
      [] q.k = "set" -> [s EXCEPT !.loc = Bind(@, q.n, q.s)]
      [] q.k = "if" -> IF q.n = "T" THEN Render(cfg, q.b, s) ELSE s
      [] q.k = "for" -> Turns(cfg, q, cfg.L, s)
       IN IF Len(s2.out) >= 0 THEN Render(cfg, Tail(is), s2) ELSE s
Turns(cfg, q, vs, s) ==
  IF vs = <<>> THEN s
  ELSE LET s2 == Render(cfg, q.b, [s EXCEPT !.loc = Bind(@, q.n, Head(vs))]) IN
       IF Len(s2.out) >= 0 THEN Turns(cfg, q, Tail(vs), s2) ELSE s

\* the macros given with the settings, by name
RECURSIVE Given(_)
Given(ds) == IF ds = <<>> THEN [x \in {} |-> 0] ELSE Bind(Given(Tail(ds)), Head(ds).n, Head(ds))

\* one operation compiles and renders a document; nothing is carried over
\* from one to the next, and the settings given stay as they are
MacInit(cfg) == [cfg |-> cfg]
MacApply(st, o) ==
  LET e == Expand(o.doc, [mac |-> Given(st.cfg.macros), log |-> <<>>, out |-> <<>>])
      r == Render(st.cfg, e.out, [loc |-> Nothing, out |-> ""])
  IN {[st |-> st, resp |-> [out |-> r.out, log |-> e.log, given |-> Len(st.cfg.macros)]]}
=============================================================================
