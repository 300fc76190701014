----------------------------- MODULE FilterEnum -----------------------------
(* Every short string through every standard filter, for replay.            *)
EXTENDS Values, Emit
CONSTANT MaxN
VARIABLE s
Alpha == {"a", " ", "\n", "<", "&", "\t", "(", "\""}
Init == s = ""
Next == /\ Len(s) < MaxN
        /\ \E c \in Alpha : s' = s \o c
        /\ Emit([s |-> s',
                 r |-> [ Filter |-> ApplyFilter("Filter", VStr(s'), NoKw),
                         WebSafe |-> ApplyFilter("WebSafe", VStr(s'), NoKw),
                         Also |-> ApplyFilter("WebSafe", VStr(s'), [maxlen |-> -1, also |-> " \"("]),
                         MaxLen |-> ApplyFilter("MaxLen", VStr(s'), [maxlen |-> 2]),
                         Strip |-> ApplyFilter("Strip", VStr(s'), NoKw),
                         StripSqueeze |-> ApplyFilter("StripSqueeze", VStr(s'), NoKw) ]])
\* laws of the filters
Has(t, c) == \E i \in 1..Len(t) : Ch(t, i) = c
Laws == /\ ~Has(WebSafe(s), "<") /\ ~Has(WebSafe(s), ">")
        /\ Squeeze(Squeeze(s, ""), "") = Squeeze(s, "")
        /\ StripLines(StripLines(s, ""), "") = StripLines(s, "")
        /\ Cardinality({i \in 1..Len(s) : Ch(s, i) = "\n"})
             = LET t == StripLines(s, "") IN Cardinality({i \in 1..Len(t) : Ch(t, i) = "\n"})
=============================================================================
