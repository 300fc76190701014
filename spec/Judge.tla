------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Trace validation, generic.  A case is [cfg, ops, obs]: a configuration, *)
(* the operations performed on the real code and what each one answered (a *)
(* string).  InitSt(cfg) and Apply(st, op) are the specification: Apply is *)
(* the set of [st, resp] it allows.  A case is accepted iff the            *)
(* specification can produce every recorded answer, in order.  The verdict *)
(* is total: each case ends in an "acc" record or in "rej" records naming  *)
(* the step and the answers the specification allows there.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Emit
CONSTANTS Cases, InitSt(_), Apply(_, _)
VARIABLES h, l, st

jvars == <<h, l, st>>

JInit == /\ h \in 1..Len(Cases)
         /\ l = 0
         /\ st = InitSt(Cases[h].cfg)

JStep ==
  LET C == Cases[h] IN
  /\ l < Len(C.ops)
  /\ LET R == Apply(st, C.ops[l + 1])
         M == {r \in R : r.resp = C.obs[l + 1]} IN
     IF M = {}
     THEN /\ Emit([h |-> h, v |-> "rej", l |-> l + 1,
                   allowed |-> {r.resp : r \in R}])
          /\ FALSE
     ELSE /\ \E r \in M : st' = r.st
          /\ l' = l + 1
          /\ h' = h
          /\ IF l' = Len(C.ops) THEN Emit([h |-> h, v |-> "acc"]) ELSE TRUE

JNext == JStep
JSpec == JInit /\ [][JNext]_jvars
=============================================================================
