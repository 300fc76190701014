------------------------------ MODULE VMTrace ------------------------------
(***************************************************************************)
(* Judges recorded renderings.  A case: the world W, ops (sequence of      *)
(* operations on it) and obs (what the code answered).  Each operation     *)
(* runs the machine to completion, step by step; at its end the machine's  *)
(* answer is compared with the recorded one.                               *)
(***************************************************************************)
EXTENDS CheetahVM, Json, IOUtils, Emit
VARIABLES h, l, m, steps
vars == <<h, l, m, steps>>
Cases == ndJsonDeserialize(IOEnv.CASES)
MaxSteps == 4000

Init == /\ h \in 1..Len(Cases)
        /\ l = 0
        /\ steps = 0
        /\ m = MInit(Cases[h].w)

Verdict(exp, C) ==
  IF exp = C.obs[l]
  THEN IF l = Len(C.ops) THEN Emit([h |-> h, v |-> "acc"]) ELSE TRUE
  ELSE Emit([h |-> h, v |-> "rej", l |-> l, allowed |-> {exp}])

\* next operation of the history
Start == /\ ~Running(m)
         /\ l < Len(Cases[h].ops)
         /\ LET C == Cases[h]
                o == C.ops[l + 1] IN
            /\ l' = l + 1 /\ steps' = 0 /\ h' = h
            /\ IF l = 0 THEN TRUE ELSE (C.ops[l].op = "render" \/ steps = 1)
            /\ m' = CASE o.op = "render" -> StartRender(C.w, m, o.o, o.m)
                      [] o.op = "write" -> [m EXCEPT !.fs = Bind(@, o.f, o.v)]
                      [] o.op = "ns" -> [m EXCEPT !.ns[o.n] = Bind(@, o.x, o.v)]
                      [] OTHER -> m

Trans(o) == o.op = "render" /\ o.trans
Answer(o, mm) == IF o.op = "render"
                 THEN (IF o.m = "" /\ mm.sig.k = "ret" /\ mm.sig.v.t # "s"
                       THEN "exc:TypeError"       \* only text is the text of an object
                       ELSE Result(mm, Trans(o))) \o (IF mm.log # "" THEN "|log:" \o mm.log ELSE "")
                 ELSE IF o.op = "errors"
                 THEN "errs:" \o (IF mm.ec[o.o] = "ListErrors" THEN mm.errs[o.o] ELSE "-")
                 ELSE IF o.op \in {"getvar", "hasvar"}
                 THEN LET r == InPath(Cases[h].w, mm, mm.objs[o.o].path, o.x) IN
                      IF o.op = "hasvar" THEN TF(r.ok)
                      ELSE "ret:" \o Repr(IF r.ok THEN r.v ELSE o.d)
                 ELSE "ok"

MStep == /\ Running(m)
         /\ steps < MaxSteps
         /\ LET C == Cases[h]
                m2 == Step(C.w, m) IN
            /\ h' = h /\ l' = l /\ steps' = steps + 1
            /\ m' = m2
            /\ IF Running(m2) THEN TRUE ELSE Verdict(Answer(C.ops[l], m2), C)

\* operations that are no renderings answer at once
Quiet == /\ ~Running(m) /\ l > 0
         /\ Cases[h].ops[l].op # "render" /\ steps = 0
         /\ Verdict(Answer(Cases[h].ops[l], m), Cases[h])
         /\ steps' = 1 /\ UNCHANGED <<h, l, m>>

\* renderings of more steps than this are left without a verdict
TooLong == /\ Running(m) /\ steps = MaxSteps
           /\ Emit([h |-> h, v |-> "long"])
           /\ steps' = MaxSteps + 1 /\ UNCHANGED <<h, l, m>>

Next == Start \/ MStep \/ Quiet \/ TooLong

----------------------------------------------------------------------------
\* Machine invariants, checked in every state of every execution
StackOK == \* one output buffer per open capture, call region and method, plus
           \* the rendering's own
  Running(m) =>
    Len(m.out) = 1 + Cardinality({j \in 1..Len(m.k) : m.k[j].k \in {"cap", "creg", "meth"}})
\* when a rendering is over, the object's filter is its initial one again
FilterRestored == (~Running(m) /\ l > 0) =>
    /\ Len(m.objs) = Len(Cases[h].w.objs)
    /\ \A j \in 1..Len(Cases[h].w.objs) : m.cur[j] = Cases[h].w.objs[j].filt
LoopSignalsCaught == (~Running(m)) => m.sig.k \notin {"brk", "cont"}
=============================================================================
