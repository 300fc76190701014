----------------------------- MODULE NameLookup -----------------------------
(***************************************************************************)
(* How a dotted name finds its value.                                      *)
(*                                                                         *)
(* cfg: the objects the caller has, a graph.                               *)
(*   nodes : sequence of [k, items, attrs, ret]                            *)
(*     k     kind: dict, od, map (mappings); obj, ga (computed attributes),*)
(*           mod, cls, cinst (an instance that can be called), partial,    *)
(*           val; fn, meth, builtin (functions and methods)                *)
(*     items record key -> node          (mappings)                        *)
(*     attrs record name -> [g, i, x]: g = "n" the node i; "x" getting it  *)
(*           raises x                                                      *)
(*     ret   what calling it gives: [g, i, x] as above                     *)
(*   loc, glo : the nodes (mappings) that are the caller's local and       *)
(*              global variables                                           *)
(* op: [op, o | sl, n (sequence of parts), ex (auto-calling)]              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

NodeRes(i) == [g |-> "n", i |-> i, x |-> ""]
ExcRes(x) == [g |-> "x", i |-> 0, x |-> x]
NoSuch(p) == [g |-> "nf", i |-> 0, x |-> p]

Mappings == {"dict", "od", "map"}
Functions == {"fn", "meth", "builtin"}

\* what every mapping has besides its keys: a method `get` that wants arguments
InnateGet(nd) == nd.k \in Mappings

\* one part
Get(G, i, p) ==
  LET nd == G.nodes[i] IN
  IF nd.k \in Mappings /\ p \in DOMAIN nd.items THEN NodeRes(nd.items[p])
  ELSE IF p \in DOMAIN nd.attrs
  THEN LET a == nd.attrs[p] IN
       IF a.g = "x" /\ a.x = "AttributeError" THEN NoSuch(p) ELSE a
  ELSE IF p = "get" /\ InnateGet(nd) THEN [g |-> "innate", i |-> 0, x |-> ""]
  ELSE NoSuch(p)
Has(G, i, p) == Get(G, i, p).g # "nf"

\* functions and methods are called, classes and instances are not
AutoCall(G, r, ex) ==
  IF r.g = "innate" THEN IF ex THEN ExcRes("TypeError") ELSE r
  ELSE IF ex /\ r.g = "n" /\ G.nodes[r.i].k \in Functions THEN G.nodes[r.i].ret
  ELSE r

\* all parts, left to right
RECURSIVE Walk(_, _, _, _)
Walk(G, r, parts, ex) ==
  IF parts = <<>> \/ r.g \in {"x", "nf"} THEN r
  ELSE IF r.g = "innate" THEN NoSuch(Head(parts))   \* a method has no such parts
  ELSE Walk(G, AutoCall(G, Get(G, r.i, Head(parts)), ex), Tail(parts), ex)

\* in the first namespace that has the first part
RECURSIVE WalkIn(_, _, _, _)
WalkIn(G, nss, parts, ex) ==
  IF nss = <<>> THEN NoSuch(parts[1])
  ELSE IF Has(G, Head(nss), parts[1])
  THEN Walk(G, NodeRes(Head(nss)), parts, ex)
  ELSE WalkIn(G, Tail(nss), parts, ex)

\* the builtins come last; `len` is the one asked for
InBuiltins(G, r, parts, ex) ==
  IF r.g = "nf" /\ r.x = parts[1] /\ parts[1] = "len"
  THEN IF ex THEN ExcRes("TypeError")
       ELSE IF Len(parts) = 1 THEN [g |-> "innate", i |-> 0, x |-> ""]
       ELSE NoSuch(parts[2])
  ELSE r

Show(r) == CASE r.g = "n" -> "n" \o ToString(r.i)
             [] r.g = "x" -> "exc:" \o r.x
             [] r.g = "nf" -> "nf:" \o r.x
             [] OTHER -> "innate"

NoneIn(G, nss, p) == \A j \in 1..Len(nss) : ~Has(G, nss[j], p)
Answer(G, op) ==
  CASE op.op = "key" -> Show(Get(G, op.o, op.n[1]))
    [] op.op = "name" -> Show(Walk(G, NodeRes(op.o), op.n, op.ex))
    [] op.op = "sl" -> Show(WalkIn(G, op.sl, op.n, op.ex))
    [] op.op = "frame" ->
         LET nss == <<G.loc, G.glo>> IN
         Show(IF NoneIn(G, nss, op.n[1])
              THEN InBuiltins(G, NoSuch(op.n[1]), op.n, op.ex)
              ELSE WalkIn(G, nss, op.n, op.ex))
    [] op.op = "fsl" ->
         LET nss == <<G.loc>> \o op.sl \o <<G.glo>> IN
         Show(IF NoneIn(G, nss, op.n[1])
              THEN InBuiltins(G, NoSuch(op.n[1]), op.n, op.ex)
              ELSE WalkIn(G, nss, op.n, op.ex))
    [] op.op = "hasname" ->
         LET r == IF Has(G, op.o, op.n[1]) THEN Walk(G, NodeRes(op.o), op.n, FALSE)
                  ELSE NoSuch(op.n[1]) IN
         IF r.g = "x" THEN (IF r.x = "NotFound" THEN "F" ELSE Show(r))
         ELSE IF r.g = "nf" THEN "F" ELSE "T"

InitSt(cfg) == [G |-> cfg]
Apply(st, op) == {[st |-> st, resp |-> Answer(st.G, op)]}
=============================================================================
