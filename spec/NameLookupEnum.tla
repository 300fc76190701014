--------------------------- MODULE NameLookupEnum ---------------------------
(* All graphs of three objects in a row: 1 holds 2 under `a`, 2 holds 3      *)
(* under `b`, 3 is anything; every way of holding, every kind of object,    *)
(* every outcome of a call; all entry points, names and both modes.         *)
EXTENDS NameLookup, Emit
CONSTANTS Wide
VARIABLES g, done
None == [y \in {} |-> 0]
Holders == {"dict", "map", "obj", "ga", "mod", "cls"}
Others == {"od", "cinst", "partial", "val"}
Exc == IF Wide THEN {"Boom", "AttributeError", "NotFound", "KeyError", "TypeError"}
       ELSE {"Boom", "AttributeError", "NotFound"}
\* ways in which a node of kind k can hold node j under name n
Ways(k, n, j) ==
  {[items |-> None, attrs |-> None]} \cup
  (IF k \in Mappings THEN {[items |-> n :> j, attrs |-> None]} ELSE {}) \cup
  (IF k \in {"obj", "ga", "mod", "cls", "cinst", "map", "od", "fn"}
   THEN {[items |-> None, attrs |-> n :> NodeRes(j)]} ELSE {}) \cup
  (IF k \in {"obj", "ga", "cinst", "map"}
   THEN {[items |-> None, attrs |-> n :> ExcRes(x)] : x \in Exc} ELSE {}) \cup
  (IF k \in {"map", "od"}      \* both: the key wins
   THEN {[items |-> n :> j, attrs |-> n :> NodeRes(1)]} ELSE {})
Rets(k, j) == IF k \in Functions
              THEN {NodeRes(j)} \cup {ExcRes(x) : x \in Exc \cup {"TypeError"}}
              ELSE {NodeRes(0)}
Node(k, w, r) == [k |-> k, items |-> w.items, attrs |-> w.attrs, ret |-> r]
First == {Node(k, w, NodeRes(0)) : k \in Holders, w \in UNION {Ways(q, "a", 2) : q \in Holders}}
FirstOK(nd) == [items |-> nd.items, attrs |-> nd.attrs] \in Ways(nd.k, "a", 2)
Second == UNION {UNION {{Node(k, w, r) : r \in Rets(k, 3)} : w \in Ways(k, "b", 3)}
                 : k \in Holders \cup Others \cup Functions}
Third == {Node("val", [items |-> None, attrs |-> None], NodeRes(0)),
          Node("cinst", [items |-> None, attrs |-> None], NodeRes(0)),
          Node("fn", [items |-> None, attrs |-> None], NodeRes(3)),
          Node("dict", [items |-> "b" :> 1, attrs |-> None], NodeRes(0))}
Empty == Node("dict", [items |-> None, attrs |-> None], NodeRes(0))
\* node 4: other variables of the caller
Graphs == {[nodes |-> <<a, b, c, Empty, Node("dict", [items |-> "a" :> 3, attrs |-> None], NodeRes(0))>>,
            loc |-> 4, glo |-> 5] :
             a \in {nd \in First : FirstOK(nd)}, b \in Second, c \in Third}
NamesOf == << <<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"b">>, <<"get">>, <<"a", "get">> >>
Op(o, i, n, ex) == [op |-> o, o |-> i, sl |-> IF i = 1 THEN <<4, 1>> ELSE <<2, 1>>,
                    n |-> n, ex |-> ex]
Flat(n) == <<Op("name", 1, n, TRUE), Op("name", 1, n, FALSE), Op("sl", 1, n, TRUE),
             Op("sl", 2, n, FALSE), Op("fsl", 1, n, TRUE), Op("fsl", 2, n, FALSE),
             Op("frame", 1, n, TRUE), Op("hasname", 1, n, FALSE)>>
Ops == <<Op("key", 1, <<"a">>, FALSE), Op("key", 2, <<"b">>, FALSE),
         Op("key", 3, <<"b">>, FALSE), Op("key", 1, <<"get">>, FALSE)>>
       \o Flat(NamesOf[1]) \o Flat(NamesOf[2]) \o Flat(NamesOf[3])
       \o Flat(NamesOf[4]) \o Flat(NamesOf[5]) \o Flat(NamesOf[6])
Init == g \in Graphs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ g' = g
        /\ Emit([cfg |-> g, ops |-> Ops, obs |-> [j \in 1..Len(Ops) |-> Answer(g, Ops[j])]])
\* auto-calling changes nothing where there is nothing to call
NoFnNoCall == (\A j \in 1..Len(g.nodes) : g.nodes[j].k \notin Functions) =>
  \A j \in 1..5 : Answer(g, Op("name", 1, NamesOf[j], TRUE)) = Answer(g, Op("name", 1, NamesOf[j], FALSE))
                  \/ NamesOf[j][Len(NamesOf[j])] = "get"
=============================================================================
