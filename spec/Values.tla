------------------------------- MODULE Values -------------------------------
(* Values, expressions and text functions shared by the abstract machine.   *)
(* A value is [t, v]: "i" integer, "s" string, "b" boolean, "n" None,       *)
(* "l" list (v a sequence of values), "f" a function of the caller's (v its *)
(* name), "o" an opaque object shown as v.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VInt(n) == [t |-> "i", v |-> n]
VStr(s) == [t |-> "s", v |-> s]
VBool(b) == [t |-> "b", v |-> b]
VNone == [t |-> "n", v |-> 0]
VList(l) == [t |-> "l", v |-> l]

Ch(s, i) == SubSeq(s, i, i)

RECURSIVE VEq(_, _), Repr(_), JoinRepr(_), ReprChars(_, _)
NumT == {"i", "b"}
AsInt(a) == IF a.t = "b" THEN (IF a.v THEN 1 ELSE 0) ELSE a.v
VEq(a, b) ==
  IF a.t \in NumT /\ b.t \in NumT THEN AsInt(a) = AsInt(b)
  ELSE IF a.t # b.t THEN FALSE
  ELSE IF a.t = "l" THEN /\ Len(a.v) = Len(b.v)
                         /\ \A j \in 1..Len(a.v) : VEq(a.v[j], b.v[j])
  ELSE a.v = b.v

\* a < b: "T", "F" or "E" (not comparable); strings by character order
CharOrder == "\t\n !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~é"
CharPos(c) == CHOOSE i \in 1..Len(CharOrder) : Ch(CharOrder, i) = c
TF(b) == IF b THEN "T" ELSE "F"
RECURSIVE Less(_, _)
Less(a, b) ==
  IF a.t \in NumT /\ b.t \in NumT THEN TF(AsInt(a) < AsInt(b))
  ELSE IF a.t = "s" /\ b.t = "s"
  THEN IF b.v = "" THEN "F" ELSE IF a.v = "" THEN "T"
       ELSE IF Ch(a.v, 1) = Ch(b.v, 1)
       THEN Less(VStr(SubSeq(a.v, 2, Len(a.v))), VStr(SubSeq(b.v, 2, Len(b.v))))
       ELSE TF(CharPos(Ch(a.v, 1)) < CharPos(Ch(b.v, 1)))
  ELSE IF a.t = "l" /\ b.t = "l"
  THEN IF b.v = <<>> THEN "F" ELSE IF a.v = <<>> THEN "T"
       ELSE IF VEq(a.v[1], b.v[1]) THEN Less(VList(Tail(a.v)), VList(Tail(b.v)))
       ELSE Less(a.v[1], b.v[1])
  ELSE "E"

Truth(a) == CASE a.t = "i" -> a.v # 0 [] a.t = "s" -> a.v # ""
              [] a.t = "b" -> a.v [] a.t = "n" -> FALSE
              [] a.t = "l" -> a.v # <<>> [] OTHER -> TRUE

IntStr(n) == ToString(n)
\* repr of strings without quotes or backslashes (the generators' strings)
ReprChars(s, i) == IF i > Len(s) THEN "" ELSE Ch(s, i) \o ReprChars(s, i + 1)
Repr(a) == CASE a.t = "i" -> IntStr(a.v)
             [] a.t = "s" -> "'" \o a.v \o "'"
             [] a.t = "b" -> (IF a.v THEN "True" ELSE "False")
             [] a.t = "n" -> "None"
             [] a.t = "l" -> "[" \o JoinRepr(a.v) \o "]"
             [] OTHER -> "<" \o a.v \o ">"
JoinRepr(l) == IF l = <<>> THEN ""
               ELSE IF Len(l) = 1 THEN Repr(l[1])
               ELSE Repr(l[1]) \o ", " \o JoinRepr(Tail(l))
\* str(value)
Str(a) == IF a.t = "s" THEN a.v ELSE Repr(a)

----------------------------------------------------------------------------
\* The standard filters, on text
IsWS(c) == c \in {" ", "\t", "\n", "\r", "\f"}
RECURSIVE ReplaceChars(_, _, _), LStrip(_), RStrip(_), StripLines(_, _),
          Squeeze(_, _)
Safe(c) == CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] c = ">" -> "&gt;"
             [] OTHER -> c
ReplaceChars(s, i, acc) == IF i > Len(s) THEN acc
                           ELSE ReplaceChars(s, i + 1, acc \o Safe(Ch(s, i)))
WebSafe(s) == ReplaceChars(s, 1, "")
\* further characters to escape (none of & # ; letters and digits): codes
AlsoCode == [ c \in {" ", "\"", "'", "(", "*", "@", "/"} |->
  CASE c = " " -> "&nbsp;" [] c = "\"" -> "&quot;" [] c = "'" -> "&#39;"
    [] c = "(" -> "&#40;" [] c = "*" -> "&#42;" [] c = "@" -> "&#64;" [] c = "/" -> "&#47;" ]
RECURSIVE Also(_, _, _, _)
Also(s, al, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE Also(s, al, i + 1, acc \o
         (IF \E j \in 1..Len(al) : Ch(al, j) = Ch(s, i) THEN AlsoCode[Ch(s, i)] ELSE Ch(s, i)))
LStrip(s) == IF s # "" /\ IsWS(Ch(s, 1)) THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
RStrip(s) == IF s # "" /\ IsWS(Ch(s, Len(s)))
             THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
StripWS(s) == RStrip(LStrip(s))
FirstNL(s) == LET P == {i \in 1..Len(s) : Ch(s, i) = "\n"} IN
              IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
StripLines(s, acc) ==
  LET p == FirstNL(s) IN
  IF p = 0 THEN acc \o StripWS(s)
  ELSE StripLines(SubSeq(s, p + 1, Len(s)),
                  acc \o StripWS(SubSeq(s, 1, p - 1)) \o "\n")
\* words joined by single spaces
Squeeze(s, acc) ==
  LET t == LStrip(s)
      E == {i \in 1..Len(t) : IsWS(Ch(t, i))}
      e == IF E = {} THEN Len(t) + 1 ELSE CHOOSE i \in E : \A j \in E : i <= j
      w == SubSeq(t, 1, e - 1)
  IN IF t = "" THEN acc
     ELSE Squeeze(SubSeq(t, e, Len(t)), IF acc = "" THEN w ELSE acc \o " " \o w)

\* kw: the filter arguments given with the placeholder, [maxlen (-1: none), also]
ApplyFilter(f, a, kw) ==
  LET s == IF a.t = "n" THEN "" ELSE Str(a) IN
  CASE f = "WebSafe" -> Also(WebSafe(s), IF "also" \in DOMAIN kw THEN kw.also ELSE "", 1, "")
    [] f = "MaxLen" -> IF kw.maxlen >= 0 /\ Len(s) > kw.maxlen
                       THEN SubSeq(s, 1, kw.maxlen) ELSE s
    [] f = "Strip" -> StripLines(s, "")
    [] f = "StripSqueeze" -> Squeeze(s, "")
    [] f = "Brackets" -> "[" \o s \o "]"
    [] f = "Angle" -> "<" \o s \o ">"
    [] OTHER -> s
NoKw == [maxlen |-> -1]
=============================================================================
