------------------------------- MODULE ExprRun -------------------------------
(* The values of given expressions, with laws every one of them obeys. *)
EXTENDS Expr, IOUtils, Json, Emit
VARIABLES h, v
Cases == ndJsonDeserialize(IOEnv.CASES)
Init == h \in 1..Len(Cases) /\ v = <<>>
Next == /\ v = <<>>
        /\ v' = <<Value(Cases[h].x)>>
        /\ h' = h
        /\ Emit([h |-> h, v |-> v'[1], truth |-> IF Bad(v'[1]) THEN FALSE ELSE Truth(v'[1])])
T(e) == LET r == Value(e) IN IF Bad(r) THEN r.t ELSE IF Truth(r) THEN "T" ELSE "F"
Neg(x) == CASE x = "T" -> "F" [] x = "F" -> "T" [] OTHER -> x
Laws == v # <<>> =>
  LET e == Cases[h].x IN
  /\ T([e |-> "not", a |-> e]) = Neg(T(e))
  /\ Value([e |-> "py", a |-> e, tr |-> <<>>]) = v[1]
  /\ Value([e |-> "if", c |-> e, a |-> e, b |-> e]) = v[1]
  /\ Value([e |-> "and", a |-> e, b |-> e]) = v[1]
  /\ Value([e |-> "or", a |-> e, b |-> e]) = v[1]
  /\ Value([e |-> "lam", x |-> "i", arg |-> e, a |-> [e |-> "var", n |-> "i"]]) = v[1]
  /\ ~Bad(v[1]) => Value([e |-> "py", a |-> [e |-> "list", l |-> <<e, e>>],
                          tr |-> <<[k |-> "idx", a |-> [e |-> "int", v |-> 1]]>>]) = v[1]
  /\ Value([e |-> "cs", ps |-> <<>>]) = VS(<<>>)
=============================================================================
