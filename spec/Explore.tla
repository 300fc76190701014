------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* Behaviour generation, generic: every sequence of at most Depth          *)
(* operations (Ops(cfg, st, n) are the ones offered in a state), with the     *)
(* answers the specification demands, is emitted for replay in the code.   *)
(* Only operations with exactly one allowed answer are offered.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
CONSTANTS Cfgs, InitSt(_), Apply(_, _), Ops(_, _, _), Depth, EmitAll
VARIABLES cfg, st, ops, resps

evars == <<cfg, st, ops, resps>>

EInit == /\ cfg \in Cfgs
         /\ st = InitSt(cfg)
         /\ ops = <<>>
         /\ resps = <<>>

ENext ==
  /\ Len(ops) < Depth
  /\ \E op \in Ops(cfg, st, Len(ops)) :
       LET R == Apply(st, op) IN
       /\ Cardinality(R) = 1
       /\ LET r == CHOOSE x \in R : TRUE IN
          /\ st' = r.st
          /\ ops' = Append(ops, op)
          /\ resps' = Append(resps, r.resp)
          /\ cfg' = cfg
          /\ IF Len(ops') = Depth \/ EmitAll
             THEN Emit([cfg |-> cfg, ops |-> ops', obs |-> resps'])
             ELSE TRUE
ESpec == EInit /\ [][ENext]_evars
=============================================================================
