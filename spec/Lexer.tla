------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* What a template's text means, character by character.  A template is a  *)
(* sequence of symbols: "$" and "#" stand for the configured start tokens, *)
(* "\n" for the line end in use, a Word for a directive's name with its    *)
(* argument; every other symbol is a character.  The machine reads one     *)
(* construct at a time: its state is the position, what has been written,  *)
(* the open blocks, and a flag.  "skip" marks inputs this specification    *)
(* leaves open (other properties decide them).                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Letters == {"a", "v", "n", "_"}
Digits  == {"5", "0"}
Blanks  == {" ", "\t"}
\* directives without and with a visible effect; all may be closed by "#"
Plain   == {"silent 1", "pass", "set q = 1", "import os", "assert 1", "attr u = 3"}
Echo    == {"echo 7"}
\* name |-> its end; transparent blocks show their text, hidden ones do not
Opens   == [x \in {"if 1", "unless 0", "for i in [1]", "repeat 1", "while 0",
                   "filter None", "cache", "block b", "def d", "capture w", "try"} |->
            CASE x = "if 1" -> "end if" [] x = "unless 0" -> "end unless"
              [] x = "for i in [1]" -> "end for" [] x = "repeat 1" -> "end repeat"
              [] x = "while 0" -> "end while" [] x = "filter None" -> "end filter"
              [] x = "cache" -> "end cache" [] x = "block b" -> "end block"
              [] x = "def d" -> "end def" [] x = "capture w" -> "end capture"
              [] x = "try" -> "end try"]
Hidden  == {"def d", "capture w", "while 0"}
Ends    == {Opens[x] : x \in DOMAIN Opens}
Words   == Plain \cup Echo \cup {"slurp", "raw", "end raw", "finally"}
           \cup DOMAIN Opens \cup Ends
NoArg   == {"slurp", "raw", "pass", "cache", "try", "finally"}
IdStart == Letters
IdCont  == Letters \cup Digits
Glue    == IdCont \cup Words          \* what would lengthen an identifier

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE "EOF"

RECURSIVE SkipB(_, _)
SkipB(s, i) == IF At(s, i) \in Blanks THEN SkipB(s, i + 1) ELSE i
RECURSIVE ToEOL(_, _)
ToEOL(s, i) == IF At(s, i) \in {"\n", "EOF"} THEN i ELSE ToEOL(s, i + 1)
RECURSIVE Back(_, _)
\* how many blanks lie just before position i
Back(s, i) == IF At(s, i - 1) \in Blanks THEN 1 + Back(s, i - 1) ELSE 0
Clear(s, i) == At(s, i - 1 - Back(s, i)) \in {"\n", "EOF"}
PastEOL(s, i) == IF At(s, i) = "\n" THEN i + 1 ELSE i

\* the end of a multi-line comment opened before j, or 0
RECURSIVE CommentEnd(_, _, _)
CommentEnd(s, j, lvl) ==
  IF lvl = 0 THEN j
  ELSE IF j > Len(s) THEN 0
  ELSE IF At(s, j - 1) # "\\" /\ s[j] = "#" /\ At(s, j + 1) = "*"
  THEN CommentEnd(s, j + 2, lvl + 1)
  ELSE IF At(s, j - 1) # "\\" /\ s[j] = "*" /\ At(s, j + 1) = "#"
  THEN CommentEnd(s, j + 2, lvl - 1)
  ELSE CommentEnd(s, j + 1, lvl)

\* the "#" of the next unescaped #end raw at or after j, or 0
RECURSIVE RawEnd(_, _)
RawEnd(s, j) ==
  IF j > Len(s) THEN 0
  ELSE IF s[j] = "#" /\ At(s, j - 1) # "\\" /\ At(s, j + 1) = "end raw"
          /\ At(s, j + 2) \notin Glue
  THEN j ELSE RawEnd(s, j + 1)

RECURSIVE IdEnd(_, _)
IdEnd(s, j) == IF At(s, j) \in IdCont THEN IdEnd(s, j + 1) ELSE j

Begin == [p |-> 1, out |-> <<>>, stk |-> <<>>, fl |-> "run"]
Skip(st) == [st EXCEPT !.fl = "skip"]
Put(st, x, p) == [st EXCEPT !.out = @ \o x, !.p = p]
\* the line's leading whitespace goes with the construct that owns the line
Drop(s, out, i) == SubSeq(out, 1, Len(out) - Back(s, i))
Value(nm) == <<"<">> \o nm \o <<">", "VALUE">>

\* after a directive whose name ends before j and which starts at i:
\* the text it takes with it, and where reading goes on
After(s, st, i, j, emit) ==
  LET k == SkipB(s, j)
      clear == Clear(s, i)
      kept == [st EXCEPT !.out = @ \o emit]
      whole == [st EXCEPT !.out = Drop(s, @, i) \o emit] IN
  CASE At(s, k) = "EOF" -> IF clear THEN [whole EXCEPT !.p = k] ELSE [kept EXCEPT !.p = k]
    [] At(s, k) = "\n" -> IF clear THEN [whole EXCEPT !.p = k + 1] ELSE [kept EXCEPT !.p = k]
    [] At(s, k) = "#" /\ At(s, k + 1) = "#" ->
         IF At(s, k + 2) \in Words /\ ~(At(s, k + 2) \in NoArg /\ At(s, k + 3) \in Glue)
         THEN [kept EXCEPT !.p = k + 1]
         ELSE LET e == ToEOL(s, k) IN
              IF clear THEN [whole EXCEPT !.p = PastEOL(s, e)] ELSE [kept EXCEPT !.p = e]
    [] At(s, k) = "#" /\ At(s, k + 1) # "#" ->
         IF At(s, k + 1) = "EOF" /\ clear /\ Back(s, i) > 0 THEN Skip(st)
         ELSE [kept EXCEPT !.p = k + 1]
    [] OTHER -> Skip(st)

Comment(s, st, i) ==
  LET e == ToEOL(s, i) IN
  IF Clear(s, i) THEN [st EXCEPT !.out = Drop(s, @, i), !.p = PastEOL(s, e)]
  ELSE [st EXCEPT !.p = e]

Multi(s, st, i) ==
  LET e == CommentEnd(s, i + 2, 1)
      k == SkipB(s, e)
      clear == Clear(s, i) IN
  IF e = 0 THEN Skip(st)
  ELSE IF e > Len(s) THEN [st EXCEPT !.p = e]
  ELSE IF At(s, k) \in {"\n", "EOF"}
  THEN IF clear THEN [st EXCEPT !.out = Drop(s, @, i), !.p = PastEOL(s, k)]
       ELSE [st EXCEPT !.p = k]
  ELSE IF clear /\ ToEOL(s, i) < e THEN Skip(st)
  ELSE [st EXCEPT !.p = e]

Slurp(s, st, i, j) ==
  LET e == PastEOL(s, ToEOL(s, j)) IN
  [st EXCEPT !.out = IF Clear(s, i) THEN Drop(s, @, i) ELSE @, !.p = e]

\* #raw: and the rest of the line
RawLine(s, st, k) ==
  LET b == IF At(s, k + 1) \in Blanks THEN k + 2 ELSE k + 1
      e == ToEOL(s, k) IN
  Put(st, SubSeq(s, b, e - 1), e)
RECURSIVE Raw(_, _, _, _)
Raw(s, st, i, j) ==
  LET k == SkipB(s, j)
      r == SkipB(s, k + 1) IN
  IF At(s, k) = ":" THEN
    IF At(s, r) = "\n" THEN Raw(s, st, i, k + 1)
    ELSE IF At(s, r) = "EOF" \/ (At(s, r) = "#" /\ At(s, r + 1) = "#") THEN Skip(st)
    ELSE RawLine(s, st, k)
  ELSE IF ~(At(s, k) \in {"\n", "#"}) \/ (At(s, k) = "#" /\ At(s, k + 1) = "#") THEN Skip(st)
  ELSE LET a == After(s, st, i, j, <<>>)          \* opening tag
           e == RawEnd(s, a.p) IN
       IF a.fl = "skip" \/ e = 0 THEN Skip(st)
       ELSE LET m == SkipB(s, e + 2)
                txt == SubSeq(s, a.p, e - 1)
                own == Clear(s, e) /\ a.p <= e - Back(s, e)
                short == SubSeq(txt, 1, Len(txt) - Back(s, e)) IN
            CASE At(s, m) = "#" /\ At(s, m + 1) # "#" -> Put(a, IF own THEN short ELSE txt, m + 1)
              [] At(s, m) = "\n" \/ At(s, m) = "EOF" ->
                   IF own THEN Put(a, short, PastEOL(s, m)) ELSE Put(a, txt, m)
              [] OTHER -> Skip(st)

Placeholder(s, st, i) ==
  LET q == CASE At(s, i + 1) \in IdStart -> i + 1
             [] At(s, i + 1) \in {"*", "!"} /\ At(s, i + 2) \in IdStart -> i + 2
             [] OTHER -> 0
      b == SkipB(s, i + 2) IN
  IF q > 0
  THEN LET e == IdEnd(s, q) IN
       IF At(s, e) \in Words \cup {"(", "["} \/ (At(s, e) = "." /\ At(s, e + 1) \in Glue)
       THEN Skip(st)
       ELSE Put(st, Value(SubSeq(s, q, e - 1)), e)
  ELSE IF At(s, i + 1) = "{" /\ At(s, b) \in IdStart
  THEN LET e == IdEnd(s, b)
           k == SkipB(s, e) IN
       IF At(s, k) = "}" THEN Put(st, Value(SubSeq(s, b, e - 1)), k + 1) ELSE Skip(st)
  ELSE IF At(s, i + 1) = "{" /\ At(s, i + 2) # "}" /\ At(s, i + 2) # "EOF" THEN Skip(st)
  ELSE IF At(s, i + 1) \in {"*", "!", "(", "["} \cup Words THEN Skip(st)
  ELSE Put(st, <<"$">>, i + 1)

\* one construct
Step(s, st) ==
  LET i == st.p
      c == At(s, i)
      n == At(s, i + 1) IN
  CASE c = "EOF" -> [st EXCEPT !.fl = IF st.stk = <<>> THEN "done" ELSE "skip"]
    [] c = "\\" -> IF n \in {"$", "#"} THEN Put(st, <<n>>, i + 2) ELSE Put(st, <<c>>, i + 1)
    [] c = "$" -> Placeholder(s, st, i)
    [] c = "#" ->
        CASE n = "#" -> Comment(s, st, i)
          [] n = "*" -> Multi(s, st, i)
          [] n \in Blanks \cup {"\n"} ->
               IF At(s, SkipB(s, i + 1)) = "\n" THEN Slurp(s, st, i, i + 1)
               ELSE Put(st, <<"#">>, i + 1)
          [] n \in Words /\ At(s, i + 2) \in Glue ->
               IF n \in NoArg THEN Put(st, <<"#", n>>, i + 2) ELSE Skip(st)
          [] n = "slurp" -> Slurp(s, st, i, i + 2)
          [] n = "raw" -> Raw(s, st, i, i + 2)
          [] n \in Plain -> After(s, st, i, i + 2, <<>>)
          [] n \in Echo -> After(s, st, i, i + 2, <<"7">>)
          [] n \in DOMAIN Opens ->
               IF n \in {"def d", "block b"}
                  /\ (st.stk # <<>> \/ \E j \in DOMAIN s : j # i + 1 /\ s[j] = n) THEN Skip(st)
               ELSE LET t == After(s, st, i, i + 2, <<>>) IN
                    [t EXCEPT !.stk = Append(@, [k |-> n, at |-> Len(t.out), fin |-> FALSE])]
          [] n = "finally" ->
               IF st.stk = <<>> \/ st.stk[Len(st.stk)].k # "try" \/ st.stk[Len(st.stk)].fin
               THEN Skip(st)
               ELSE LET top == st.stk[Len(st.stk)]
                        t == After(s, st, i, i + 2, <<>>) IN
                    IF Len(t.out) <= top.at THEN Skip(st)
                    ELSE [t EXCEPT !.stk[Len(t.stk)] = [top EXCEPT !.at = Len(t.out), !.fin = TRUE]]
          [] n \in Ends ->
               IF st.stk = <<>> \/ Opens[st.stk[Len(st.stk)].k] # n THEN Skip(st)
               ELSE LET top == st.stk[Len(st.stk)]
                        t == After(s, st, i, i + 2, <<>>) IN
                    IF Len(t.out) <= top.at \/ (top.k = "try" /\ ~top.fin) THEN Skip(st)
                    ELSE [t EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1),
                                   !.out = IF top.k \in Hidden THEN SubSeq(@, 1, top.at) ELSE @]
          [] n \in {"end raw"} -> Skip(st)
          [] OTHER -> Put(st, <<"#">>, i + 1)
    [] OTHER -> Put(st, <<c>>, i + 1)

RECURSIVE Run(_, _)
Run(s, st) == IF st.fl # "run" THEN st ELSE Run(s, Step(s, st))
Lex(s) == Run(s, Begin)
=============================================================================
