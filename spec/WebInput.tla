------------------------------ MODULE WebInput ------------------------------
(***************************************************************************)
(* Fetching fields of a web request into a template's namespace.           *)
(* cfg.fields: the request's fields in order, [k, v]; v "" is a blank one, *)
(* which counts as missing.  State: the search list, a sequence of maps.   *)
(* A value is written with its type: s:text, i:12, f:1.5, b:upload,        *)
(* [..] for a list; a default or bad value may be an exception, "!Name".   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

Names == <<"a", "b", "c", "d">>
IntOf == ("12" :> "i:12") @@ ("-3" :> "i:-3") @@ (" 7 " :> "i:7") @@ ("0" :> "i:0")
         @@ ("1.5" :> "bad") @@ ("x" :> "bad") @@ ("1e3" :> "bad") @@ ("0x10" :> "bad")
         @@ ("5;6" :> "bad") @@ ("nan" :> "bad") @@ ("a b" :> "bad") @@ ("12x" :> "bad")
FltOf == ("12" :> "f:12.0") @@ ("-3" :> "f:-3.0") @@ (" 7 " :> "f:7.0") @@ ("0" :> "f:0.0")
         @@ ("1.5" :> "f:1.5") @@ ("x" :> "bad") @@ ("1e3" :> "f:1000.0") @@ ("0x10" :> "bad")
         @@ ("5;6" :> "bad") @@ ("nan" :> "f:nan") @@ ("a b" :> "bad") @@ ("12x" :> "bad")

WebInit(c) == [fields |-> SelectSeq(c.fields, LAMBDA f : f.v # ""),
               sl |-> << [n \in {"a", "d"} |-> "s:NS"] >>]

Vals(st, k) == LET S == SelectSeq(st.fields, LAMBDA f : f.k = k) IN
               [i \in 1..Len(S) |-> [v |-> S[i].v, up |-> S[i].up]]
IsErr(x) == SubSeq(x, 1, 1) = "!"
Conv(x, conv, bad) ==
  IF conv = "" THEN (IF x.up THEN "b:" ELSE "s:") \o x.v
  ELSE LET y == IF conv = "int" THEN IntOf[x.v] ELSE FltOf[x.v] IN
       IF y = "bad" THEN bad ELSE y
List(s) == "[" \o (IF s = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o "," \o x, s[1],
                                                    SubSeq(s, 2, Len(s)))) \o "]"
\* one requested name: q = [n, conv, colon, multi]; the field called by the
\* whole requested name comes first
One(st, o, q) ==
  LET long == Vals(st, q.n \o (IF q.colon THEN ":" \o q.conv ELSE ""))
      vs == IF long # <<>> THEN long ELSE Vals(st, q.n)
      bad == IF q.conv = "int" THEN o.badInt ELSE o.badFloat
      def == CASE q.conv = "" -> o.default [] q.conv = "int" -> o.defaultInt
               [] OTHER -> o.defaultFloat
      cs == [i \in 1..Len(vs) |-> Conv(vs[i], q.conv, bad)]
      es == SelectSeq(cs, IsErr) IN
  CASE q.conv \notin {"", "int", "float"} -> "!TypeError"
    [] q.conv \in {"", "int", "float"} /\ es # <<>> -> es[1]
    [] OTHER -> IF q.multi THEN List(cs) ELSE IF cs = <<>> THEN def ELSE cs[1]
RECURSIVE Fetch(_, _, _, _)
Fetch(st, o, qs, dic) ==
  IF qs = <<>> THEN [e |-> "", dic |-> dic]
  ELSE LET v == One(st, o, qs[1]) IN
       IF IsErr(v) THEN [e |-> v, dic |-> dic]
       ELSE Fetch(st, o, SubSeq(qs, 2, Len(qs)),
                  [n \in DOMAIN dic \cup {qs[1].n} |-> IF n = qs[1].n THEN v ELSE dic[n]])
Lookup(sl, n) == LET S == SelectSeq(sl, LAMBDA m : n \in DOMAIN m) IN
                 IF S = <<>> THEN "-" ELSE S[1][n]
Obs(st, r, dic, out) ==
  [r |-> r, out |-> out,
   dic |-> LET S == SelectSeq(Names, LAMBDA n : n \in DOMAIN dic) IN
           [i \in 1..Len(S) |-> S[i] \o "=" \o dic[S[i]]],
   vars |-> [i \in 1..Len(Names) |-> Names[i] \o "=" \o Lookup(st.sl, Names[i])]]
Empty == [n \in {} |-> ""]
Res(st, r, dic, out) == {[st |-> st, resp |-> Obs(st, r, dic, out)]}
WebApply(st, o) ==
  CASE o.src \in {"c", "C", "s"} -> Res(st, "!RuntimeError", Empty, FALSE)
    [] o.src \in {"f", "F", "v", "V"} ->
         LET r == Fetch(st, o, o.qs, Empty) IN
         IF r.e # "" THEN Res(st, r.e, Empty, FALSE)
         ELSE Res([st EXCEPT !.sl = <<r.dic>> \o @], "ok", r.dic, o.debug)
    [] OTHER -> Res(st, "!src", Empty, FALSE)
=============================================================================
