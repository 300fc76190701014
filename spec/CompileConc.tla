----------------------------- MODULE CompileConc -----------------------------
(***************************************************************************)
(* The compile protocol step by step, under every interleaving.            *)
(* A thread performs one request: look the key up, generate code, reserve  *)
(* a module name, run the module's code (which may import a module, taking *)
(* that module's import lock, whose own code may make another request),    *)
(* publish.  Threads may also import such a module directly.               *)
(* LockedRun = TRUE is the variant in which the compile lock is held while *)
(* the module's code runs, AtomicPublish = FALSE the one in which looking  *)
(* up and publishing are separate; both are known to be wrong, and are     *)
(* checked to be wrong (the properties have teeth).                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, LockedRun, AtomicPublish
\* what the threads do: frames [k |-> "req", key, imp] / [k |-> "imp", m]
\* key "a" is plain; key "n" imports module "M", whose code requests key "a"
Req(key) == [k |-> "req", key |-> key, pc |-> "lookup", cls |-> 0, name |-> 0]
Imp(m) == [k |-> "imp", m |-> m, pc |-> "enter"]
Jobs == {Req("a"), Req("n"), Imp("M")}
VARIABLES job, stack, lock, ilock, loaded, cache, names, run, nxt, got
vars == <<job, stack, lock, ilock, loaded, cache, names, run, nxt, got>>

Init == /\ job \in [Threads -> Jobs]
        /\ stack = [t \in Threads |-> <<job[t]>>]
        /\ lock = 0 /\ ilock = 0 /\ loaded = FALSE
        /\ cache = <<>> /\ names = {} /\ run = {} /\ nxt = 1
        /\ got = [t \in Threads |-> {}]

Top(t) == stack[t][Len(stack[t])]
Set(t, f) == stack' = [stack EXCEPT ![t][Len(stack[t])] = f]
Push(t, f, g) == stack' = [stack EXCEPT ![t] = Append(
                    [@ EXCEPT ![Len(@)] = f], g)]
Pop(t) == stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Busy(t) == stack[t] # <<>>

Lookup(t) ==
  /\ Busy(t) /\ Top(t).k = "req" /\ Top(t).pc = "lookup"
  /\ IF Top(t).key \in DOMAIN cache
     THEN /\ got' = [got EXCEPT ![t] = @ \cup {<<Top(t).key, cache[Top(t).key]>>}]
          /\ Pop(t)
     ELSE /\ Set(t, [Top(t) EXCEPT !.pc = "reserve"]) /\ got' = got
  /\ UNCHANGED <<job, lock, ilock, loaded, cache, names, run, nxt>>
Reserve(t) ==
  /\ Busy(t) /\ Top(t).k = "req" /\ Top(t).pc = "reserve"
  /\ lock = 0
  /\ nxt' = nxt + 1
  \* a name is new if no module and no module still being run has it
  /\ LET free == (1..20) \ (names \cup run)
         nm == CHOOSE i \in free : \A j \in free : i <= j IN
     /\ run' = run \cup {nm}
     /\ Set(t, [Top(t) EXCEPT !.pc = "run", !.cls = nxt, !.name = nm])
  /\ lock' = (IF LockedRun THEN t ELSE 0)
  /\ UNCHANGED <<job, ilock, loaded, cache, names, got>>
Run(t) ==
  /\ Busy(t) /\ Top(t).k = "req" /\ Top(t).pc = "run"
  /\ LET f == [Top(t) EXCEPT !.pc = "ran"] IN
     IF Top(t).key = "n" THEN Push(t, f, Imp("M")) ELSE Set(t, f)
  /\ UNCHANGED <<job, lock, ilock, loaded, cache, names, run, nxt, got>>
Ran(t) ==
  /\ Busy(t) /\ Top(t).k = "req" /\ Top(t).pc = "ran"
  /\ names' = names \cup {Top(t).name} /\ run' = run \ {Top(t).name}
  /\ lock' = (IF LockedRun THEN 0 ELSE lock)
  /\ Set(t, [Top(t) EXCEPT !.pc = "publish"])
  /\ UNCHANGED <<job, ilock, loaded, cache, nxt, got>>
Publish(t) ==
  /\ Busy(t) /\ Top(t).k = "req" /\ Top(t).pc = "publish"
  /\ lock = 0
  /\ LET key == Top(t).key
         mine == Top(t).cls
         c == IF AtomicPublish /\ key \in DOMAIN cache THEN cache[key] ELSE mine
     IN /\ cache' = [x \in DOMAIN cache \cup {key} |->
                       IF x # key \/ x \in DOMAIN cache THEN cache[x] ELSE mine]
        /\ got' = [got EXCEPT ![t] = @ \cup {<<key, c>>}]
  /\ Pop(t)
  /\ UNCHANGED <<job, lock, ilock, loaded, names, run, nxt>>
\* importing: the module's lock is held while its code runs, once
Enter(t) ==
  /\ Busy(t) /\ Top(t).k = "imp" /\ Top(t).pc = "enter"
  /\ ilock = 0
  /\ IF loaded THEN Pop(t) /\ ilock' = ilock
     ELSE ilock' = t /\ Push(t, [Top(t) EXCEPT !.pc = "leave"], Req("a"))
  /\ UNCHANGED <<job, lock, loaded, cache, names, run, nxt, got>>
Leave(t) ==
  /\ Busy(t) /\ Top(t).k = "imp" /\ Top(t).pc = "leave"
  /\ loaded' = TRUE /\ ilock' = 0 /\ Pop(t)
  /\ UNCHANGED <<job, lock, cache, names, run, nxt, got>>
Step(t) == Lookup(t) \/ Reserve(t) \/ Run(t) \/ Ran(t) \/ Publish(t)
           \/ Enter(t) \/ Leave(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* identical requests get one class
OneClass == \A t, u \in Threads : \A x \in got[t], y \in got[u] :
              x[1] = y[1] => x[2] = y[2]
\* no two modules under one name
OneName == \A t, u \in Threads : \A i \in DOMAIN stack[t], j \in DOMAIN stack[u] :
   <<t, i>> # <<u, j>> /\ stack[t][i].k = "req" /\ stack[u][j].k = "req"
   /\ stack[t][i].pc \in {"run", "ran"} /\ stack[u][j].pc \in {"run", "ran"}
     => stack[t][i].name # stack[u][j].name
NoDeadlock == (\E t \in Threads : Busy(t)) => ENABLED Next
=============================================================================
