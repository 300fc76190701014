----------------------------- MODULE CompileLin -----------------------------
(***************************************************************************)
(* Histories of concurrent compile requests are accepted iff they are      *)
(* linearizable with respect to CompileCache: between its invocation and   *)
(* its return each request takes effect once, atomically.  Classes are     *)
(* recorded by arbitrary labels; the model's numbers must correspond to    *)
(* them one to one.                                                        *)
(***************************************************************************)
EXTENDS CompileCache, Json, IOUtils, Emit
VARIABLES h, l, st, pend, lab
Cases == ndJsonDeserialize(IOEnv.CASES)
vars == <<h, l, st, pend, lab>>
\* event: [e |-> "inv", t, o] or [e |-> "ret", t, k, text]
None == [s |-> "idle"]
Init == /\ h \in 1..Len(Cases)
        /\ l = 0
        /\ st = CInit(Cases[h])
        /\ pend = [t \in 1..Cases[h].n |-> None]
        /\ lab = <<>>                       \* model class -> recorded label
Ev == Cases[h].ev[l + 1]
More == l < Len(Cases[h].ev)
Invoke == /\ More /\ Ev.e = "inv"
          /\ pend' = [pend EXCEPT ![Ev.t] = [s |-> "open", o |-> Ev.o]]
          /\ l' = l + 1 /\ UNCHANGED <<h, st, lab>>
\* effects are taken as late as possible: only when some return needs them
Effect(t) == /\ More /\ Ev.e = "ret"
             /\ pend[t].s = "open"
             /\ \E r \in COut(st, pend[t].o) :
                  /\ st' = r.st
                  /\ pend' = [pend EXCEPT ![t] = [s |-> "done", k |-> r.k,
                                                  text |-> r.text]]
             /\ UNCHANGED <<h, l, lab>>
Return == /\ More /\ Ev.e = "ret"
          /\ pend[Ev.t].s = "done"
          /\ LET p == pend[Ev.t] IN
             /\ p.text = Ev.text
             /\ IF p.k = 0 THEN Ev.k = 0 /\ lab' = lab
                ELSE IF p.k \in DOMAIN lab THEN lab[p.k] = Ev.k /\ lab' = lab
                ELSE /\ \A j \in DOMAIN lab : lab[j] # Ev.k
                     /\ lab' = [j \in DOMAIN lab \cup {p.k} |->
                                 IF j = p.k THEN Ev.k ELSE lab[j]]
          /\ pend' = [pend EXCEPT ![Ev.t] = None]
          /\ l' = l + 1
          /\ IF l' = Len(Cases[h].ev) THEN Emit([h |-> h, v |-> "acc"])
             ELSE TRUE
          /\ UNCHANGED <<h, st>>
Next == Invoke \/ Return \/ \E t \in DOMAIN pend : Effect(t)
=============================================================================
