------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Compiler settings.  A settings record gives a value, or "" for nothing  *)
(* said, to each setting of the study:                                     *)
(*   var, com, dir  the placeholder, comment and directive tokens          *)
(*   auto, filt, mark   autocalling, output filters, block markers         *)
(*   psp, ml, slurp   the tokens of embedded code, long comments and of    *)
(*       lines joined; an   whether None never reaches the filter          *)
(*   m1, m2  macros (a nested dictionary: "f1", "f2" are functions)        *)
(*   dm  "D2": the settings #defmacro uses are those of dictionary D2      *)
(* State: the user's dictionaries D1 and D2 (D2 is also the default of the *)
(* template API class K) and what the classes compiled so far render.      *)
(* A template is a sequence of items: settings directives and probes, the  *)
(* text of a probe showing which settings are in force at its place.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Flat == {"var", "com", "dir", "auto", "filt", "mark", "dm",
         "psp", "slurp", "an", "ml"}
Macros == {"m1", "m2"}
Keys == Flat \cup Macros
None == [k \in Keys |-> ""]
Defaults == [None EXCEPT !.var = "$", !.com = "##", !.dir = "#", !.auto = "T",
                         !.filt = "T", !.mark = "F", !.psp = "<%", !.slurp = "#",
                         !.an = "T", !.ml = "#*"]
\* nested settings are merged: only the keys given change
Merge(a, b) == [k \in Keys |-> IF b[k] = "" THEN a[k] ELSE b[k]]
\* #compiler replaces the one setting as a whole
Assign(a, it) == IF it.k # "macro" THEN [a EXCEPT ![it.k] = it.v]
                 ELSE [k \in Keys |-> IF k \in Macros THEN it.s[k] ELSE a[k]]

\* what a probe renders as under the settings e (n: how many came before it;
\* m3: whether a #defmacro m3 came before it)
W(e, x) == IF e.filt = "T" THEN "<" \o x \o ">" ELSE x
Mac(e, m, val) ==
  LET line(t) == t \o m \o ": x\n"
      call(t) == IF e.dir = t /\ val # "" THEN val \o "(x)" ELSE line(t) IN
  call("#") \o call("^")
ProbeOut(e, n, m3) ==
  LET f == IF e.auto = "T" THEN "C" ELSE "O" IN
  "v:" \o (IF e.var = "$" THEN W(e, "A") \o ",@a;f:" \o W(e, f) \o ",@f"
           ELSE "$a," \o W(e, "A") \o ";f:$f," \o W(e, f)) \o "\n"
  \o "c: " \o (CASE e.com = "##" -> "" [] e.com = "//" -> "##1 "
              [] e.com = "yes" -> "##1 //2 " [] e.com = "1x" -> "##1 //2 yes3 ") \o "\n"
  \o "d:" \o (IF e.dir = "#" THEN "|^silent 1^.\n" ELSE "#silent 1#|.\n")
  \o "p:" \o (IF e.psp = "<%" THEN "1,{%write(\"1\")%}" ELSE "<%write(\"1\")%>,1") \o "\n"
  \o "l:" \o (IF e.ml = "#*" THEN ".(* *)" ELSE "#* *#.") \o "\n"
  \o "s" \o (IF e.slurp = "#" THEN "~\n" ELSE "#\n") \o "t\n"
  \o "n:" \o (LET x == IF e.an = "T" THEN "" ELSE IF e.filt = "T" THEN "<None>" ELSE "None" IN
               IF e.var = "$" THEN x \o ",@n" ELSE "$n," \o x) \o "\n"
  \o Mac(e, "m1", e.m1) \o Mac(e, "m2", e.m2)
  \o Mac(e, "m3", IF m3 THEN "M3" ELSE "")
  \o (IF e.mark = "T"
      THEN "\n<!-- START BLOCK: b" \o ToString(n) \o " -->\nB\n\n<!-- END BLOCK: b"
           \o ToString(n) \o " -->\n"
      ELSE "B\n")

RECURSIVE Run(_, _, _, _, _)
Run(e, prog, i, n, m3) ==
  IF i > Len(prog) THEN ""
  ELSE LET it == prog[i] IN
    IF it.i = "probe" THEN ProbeOut(e, n, m3) \o Run(e, prog, i + 1, n + 1, m3)
    ELSE IF it.i = "set" THEN Run(Assign(e, it), prog, i + 1, n, m3)
    ELSE IF it.i = "block" THEN Run(Merge(e, it.s), prog, i + 1, n, m3)
    ELSE IF it.i = "reset" THEN Run(Defaults, prog, i + 1, n, m3)
    ELSE Run(e, prog, i + 1, n, TRUE)      \* defmacro

\* settings given to a compilation replace the defaults of the class
Given(st, o) == IF o.set # "" THEN st.d[o.set]
                ELSE IF o.api = "K" THEN st.d["D2"] ELSE None

SInit(cfg) == [d |-> [D1 |-> cfg.D1, D2 |-> cfg.D2], outs |-> <<>>]
SApply(st, o) ==
  LET res(s, out) == {[st |-> s, resp |-> [out |-> out, d |-> s.d]]} IN
  IF o.op = "compile" THEN
    LET out == Run(Merge(Defaults, Given(st, o)), o.prog, 1, 0, FALSE) IN
    res([st EXCEPT !.outs = Append(@, out)], out)
  ELSE IF o.op = "mutate" THEN res([st EXCEPT !.d[o.d][o.k] = o.v], "")
  ELSE IF o.n <= Len(st.outs) THEN res(st, st.outs[o.n])   \* render again
  ELSE {}
=============================================================================
