------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* Block structure (C05).  A template is a sequence of tags, one per line  *)
(* (layout "lines") or all on one line (layout "inline").  The machine     *)
(* below reads them with a stack of open blocks and says whether the       *)
(* template is well formed and, if not, on which line the error has to be  *)
(* reported (0: on any line of the template).                              *)
(*                                                                         *)
(* Tags: [t, k]                                                            *)
(*   text, cmt, stmt (set/echo/pass/...), brk (break/continue)             *)
(*   open k         #k ...           needs its #end k                      *)
(*   clause k       #else, #elif, #except (typed), #bexcept, #finally      *)
(*   short k        #k ...: text     single-line form                      *)
(*   sclause k      #else: text ...  single-line form                      *)
(*   shopen k       #if 1: #k ...    block opened inside a single-line form*)
(*   shend k        #if 1: a #end k  block closed inside a single-line form*)
(*   end k          #end k (k also unknown names)                          *)
(*   arg            #arg x                                                 *)
(*   raw            #raw ... everything up to #end raw is text             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Cond == {"if", "unless"}
Loops == {"for", "while", "repeat"}
Funcs == {"def", "block", "closure"}
Regions == {"capture", "filter", "cache", "call"}
Closeable == Cond \cup Loops \cup Funcs \cup Regions \cup {"try"}

Frame(k) == [k |-> k, fn |-> k \in Funcs, py |-> FALSE, ne |-> FALSE, cl |-> "body",
             prev |-> ""]
\* py: a Python suite of its own that must not be empty
Base == Frame("base")
Begin == [stk |-> <<Base>>, err |-> 0, kind |-> "", soft |-> FALSE, any |-> FALSE,
          raw |-> FALSE]

Top(s) == s.stk[Len(s.stk)]
SetTop(s, f) == [s EXCEPT !.stk[Len(s.stk)] = f]
Err(s, i, kind) == [s EXCEPT !.err = i, !.kind = kind]
Soft(s, b) == [s EXCEPT !.soft = @ \/ b]

\* code is emitted in the innermost block: a pending single-line try is
\* without its handler
Emits(s) == Soft(SetTop(s, [Top(s) EXCEPT !.ne = TRUE, !.prev = ""]), Top(s).prev = "try")

\* the names of the directives a tag uses
Names(tg) ==
  CASE tg.t \in {"text", "cmt"} -> <<>>
    [] tg.t \in {"open", "short"} -> <<tg.k>>
    [] tg.t \in {"clause", "sclause"} -> <<IF tg.k = "bexcept" THEN "except" ELSE tg.k>>
    [] tg.t = "shopen" -> <<"if", tg.k>>
    [] tg.t = "shend" -> <<"if", "end">>
    [] tg.t = "end" -> <<"end">>
    [] tg.t = "raw" -> <<"raw">>
    [] tg.t = "arg" -> <<"arg">>
    [] OTHER -> <<tg.k>>
Forbidden(tg, cfg) ==
  \E j \in 1..Len(Names(tg)) :
    LET n == Names(tg)[j] IN
    \/ \E m \in 1..Len(cfg.dis) : cfg.dis[m] = n
    \/ Len(cfg.en) > 0 /\ \A m \in 1..Len(cfg.en) : cfg.en[m] # n

NestedDef(s) == \E j \in 1..Len(s.stk) : s.stk[j].k = "def"

\* leaving a clause body
CloseBody(s) == LET f == Top(s) IN
  Soft(s, (f.py /\ ~f.ne) \/ f.prev = "try")

Open(s, k) ==
  LET own == k \in {"def", "block"} /\ ~(k = "def" /\ NestedDef(s))
      \* a method of its own leaves no trace in the enclosing code, except
      \* that a block is also called where it stands
      s1 == IF own /\ k = "def"
            THEN [s EXCEPT !.stk[Len(s.stk)].prev = IF @ \in {"", "try"} THEN @ ELSE "?"]
            ELSE Emits(s)
      suite == k \in Cond \cup Loops \cup {"try", "closure"} \/ (k = "def" /\ ~own) IN
  [s1 EXCEPT !.stk = Append(@, [Frame(k) EXCEPT !.py = suite])]

End(s, k, i) ==
  IF k \notin Closeable THEN Err(s, i, "err")
  ELSE IF Len(s.stk) = 1 \/ Top(s).k # k THEN Err(s, i, "err")
  ELSE LET f == Top(s)
           s1 == CloseBody(s)
           s2 == Soft(s1, f.k = "try" /\ f.cl = "body")
           s3 == [s2 EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)] IN
       IF f.k \in Funcs THEN s3
       ELSE [s3 EXCEPT !.stk[Len(s3.stk)].prev = "?"]

Fits(f, c) ==
  CASE c = "elif" -> f.k \in Cond /\ f.cl \in {"body", "elif"}
    [] c = "else" -> \/ f.k \in Cond /\ f.cl \in {"body", "elif"}
                     \/ f.k \in Loops /\ f.cl = "body"
                     \/ f.k = "try" /\ f.cl \in {"except", "bexcept"}
    [] c \in {"except", "bexcept"} -> f.k = "try" /\ f.cl \in {"body", "except"}
    [] c = "finally" -> f.k = "try" /\ f.cl # "finally"
Clause(s, c) ==
  LET f == Top(s) IN
  IF ~Fits(f, c) THEN [s EXCEPT !.soft = TRUE]
  ELSE SetTop(CloseBody(s), [f EXCEPT !.ne = FALSE, !.cl = c, !.prev = ""])

ShortAfter(k) == IF k \in Cond THEN "if" ELSE IF k \in Loops THEN "loop" ELSE "try"
Short(s, k) == LET s1 == Emits(s) IN SetTop(s1, [Top(s1) EXCEPT !.prev = ShortAfter(k)])
SClause(s, c) ==
  LET f == Top(s)
      p == f.prev
      ok == CASE c = "elif" -> p = "if"
              [] c = "else" -> p \in {"if", "loop", "tryx", "tryb"}
              [] c \in {"except", "bexcept"} -> p \in {"try", "tryx"}
              [] c = "finally" -> p \in {"try", "tryx", "tryb", "trye"}
      nx == CASE c = "elif" -> "if"
              [] c = "else" -> IF p \in {"tryx", "tryb"} THEN "trye" ELSE ""
              [] c = "except" -> "tryx"
              [] c = "bexcept" -> "tryb"
              [] c = "finally" -> "" IN
  IF p = "?" THEN SetTop([s EXCEPT !.any = TRUE], [f EXCEPT !.ne = TRUE])
  ELSE IF ~ok THEN [s EXCEPT !.soft = TRUE]
  ELSE SetTop(s, [f EXCEPT !.prev = nx])

InLoop(s) ==
  \E j \in 1..Len(s.stk) : /\ s.stk[j].k \in Loops /\ s.stk[j].cl = "body"
                           /\ \A m \in j..Len(s.stk) : ~s.stk[m].fn
Arg(s, i) ==
  LET open == {j \in 1..Len(s.stk) : s.stk[j].k = "call"}
      fns == {j \in 1..Len(s.stk) : s.stk[j].fn /\ s.stk[j].k # "closure"} IN
  IF Top(s).k = "call" THEN Emits(s)
  ELSE IF \E j \in open : \A m \in fns : m < j THEN [Emits(s) EXCEPT !.any = TRUE]
  ELSE IF open = {} THEN Err(s, i, "err")
  ELSE [Emits(s) EXCEPT !.any = TRUE]

Step(s, tg, i, cfg) ==
  IF s.err # 0 THEN s
  ELSE IF s.raw THEN
       IF tg.t = "end" /\ tg.k = "raw" THEN [s EXCEPT !.raw = FALSE] ELSE Emits(s)
  ELSE IF Forbidden(tg, cfg) THEN Err(s, i, "forbid")
  ELSE CASE tg.t = "text" -> Emits(s)
         [] tg.t = "cmt" -> s
         [] tg.t = "stmt" ->
              \* lax: the recorded finding, see known_findings.txt
              LET s1 == Emits(s) IN
              IF cfg.lax /\ tg.k = "echo" THEN SetTop(s1, [Top(s1) EXCEPT !.prev = "if"])
              ELSE s1
         [] tg.t = "brk" -> Soft(Emits(s), ~InLoop(s))
         [] tg.t = "open" -> Open(s, tg.k)
         [] tg.t = "clause" -> Clause(s, tg.k)
         [] tg.t = "short" -> Short(s, tg.k)
         [] tg.t = "sclause" -> SClause(s, tg.k)
         \* a single-line form is a block of its own: what is opened in it
         \* has to be closed in it, and it closes nothing else
         [] tg.t \in {"shopen", "shend"} -> Err(s, i, "err")
         [] tg.t = "end" -> End(s, tg.k, i)
         [] tg.t = "arg" -> Arg(s, i)
         [] tg.t = "raw" -> [s EXCEPT !.raw = TRUE]   \* emits its text, if any

RECURSIVE Run(_, _, _, _)
Run(s, tags, i, cfg) ==
  IF i > Len(tags) THEN s ELSE Run(Step(s, tags[i], i, cfg), tags, i + 1, cfg)

Final(s) == IF s.raw THEN [s EXCEPT !.any = TRUE]
            ELSE IF s.err # 0 \/ Len(s.stk) = 1 THEN Soft(s, s.err = 0 /\ Top(s).prev = "try")
            ELSE [s EXCEPT !.soft = TRUE]

Line(cfg, i) == IF cfg.layout = "inline" THEN 1 ELSE i
Lines(cfg, tags) == IF cfg.layout = "inline" THEN 1 ELSE Len(tags)
\* what the compiler may answer
Verdict(tags, cfg) ==
  LET s == Final(Run(Begin, tags, 1, cfg))
      errs == {"err:" \o ToString(j) : j \in 1..Lines(cfg, tags)} IN
  IF s.err # 0
  THEN IF s.any \/ s.soft THEN errs \cup {s.kind \o ":" \o ToString(Line(cfg, s.err))}
       ELSE {s.kind \o ":" \o ToString(Line(cfg, s.err))}
  ELSE IF s.soft THEN errs
  ELSE IF s.any THEN errs \cup {"ok"}
  ELSE {"ok"}

InitSt(cfg) == [cfg |-> cfg]
\* "compile-any" is an arbitrary text of cfg.n lines: it compiles or is refused
\* with an error on one of its lines
Apply(st, op) ==
  {[st |-> st, resp |-> r] :
     r \in IF op.op = "compile-any"
           THEN {"ok"} \cup {"err:" \o ToString(j) : j \in 1..st.cfg.n}
           ELSE Verdict(op.tags, st.cfg)}
=============================================================================
