----------------------------- MODULE LexerEnum -----------------------------
(* Every template of up to Depth symbols over an alphabet, between a fixed   *)
(* prefix and suffix, with what it must render to.  The invariants are the   *)
(* property's clauses on the specification itself.                           *)
EXTENDS Lexer, Emit
CONSTANTS Alpha, Depth, Pre, Post, EmitAll
VARIABLE s
Init == s = <<>>
Whole(x) == Pre \o x \o Post
Next == /\ Len(s) < Depth
        /\ \E c \in Alpha : s' = Append(s, c)
        /\ LET r == Lex(Whole(s')) IN
           (EmitAll \/ Len(s') >= Depth - 1) /\ r.fl = "done" =>
             Emit([src |-> Whole(s'), out |-> r.out])
R == Lex(s)
Has(x, S) == \E i \in DOMAIN x : x[i] \in S
\* text without start tokens is output as it is
Verbatim == ~Has(s, {"$", "#"}) => R.fl = "done" /\ R.out = s
\* escaping every start token (and there being no backslash) gives the text back
RECURSIVE Esc(_)
Esc(x) == IF x = <<>> THEN <<>>
          ELSE (IF Head(x) \in {"$", "#"} THEN <<"\\", Head(x)>> ELSE <<Head(x)>>) \o Esc(SubSeq(x, 2, Len(x)))
Escaped == ~Has(s, {"\\"}) => LET e == Lex(Esc(s)) IN e.fl = "done" /\ e.out = s
\* a raw section gives its text back
RawText == At(s, 1) # "#" /\ ~Clear(<<"#">> \o s \o <<"#">>, Len(s) + 2) /\ RawEnd(s \o <<"#", "end raw">>, 1) = Len(s) + 1 =>
             Lex(<<"#", "raw", "#">> \o s \o <<"#", "end raw", "#">>).out = s
\* complete lines render one after another (no construct left open)
Lines == (R.fl = "done" /\ s # <<>> /\ s[Len(s)] = "\n") =>
           \A t \in {<<"a">>, <<" ", "#", "silent 1", "\n", "a">>, <<" ", "#", "#", "\n">>, <<"#", "slurp", "\n">>,
                     <<" ", "$", "v">>, <<" ", "#", "\n", "a">>, <<"#", "echo 7">>} :
             Lex(s \o t).fl = "done" => Lex(s \o t).out = R.out \o Lex(t).out
\* everything written is in the source, apart from values; whitespace is never invented
RECURSIVE Sub(_, _, _, _)
Sub(a, i, b, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE
                   ELSE IF a[i] = b[j] THEN Sub(a, i + 1, b, j + 1) ELSE Sub(a, i, b, j + 1)
Marks == {"<", ">", "VALUE", "7"}
NoInvention == R.fl = "done" =>
   Sub(SelectSeq(R.out, LAMBDA x : x \notin Marks), 1, s, 1)
Total == R.fl \in {"done", "skip"}
=============================================================================
