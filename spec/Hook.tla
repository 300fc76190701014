-------------------------------- MODULE Hook --------------------------------
(***************************************************************************)
(* Importing with and without the template import hook.                    *)
(*                                                                         *)
(* State: the files (per location the text of the Python module, of its    *)
(* compiled form, and of the templates), the loaded modules, whether the   *)
(* hook is installed and for which template extensions.                    *)
(* A location is a directory of the import path followed by names, e.g.    *)
(* "1/p/a"; a text is [t |-> tag, f |-> fault, imps |-> import statements, *)
(* tm |-> whether it is a template].                                       *)
(* Every text has a tag of its own, so that what a module was loaded from  *)
(* can be seen; a compiled form is represented by the text it came from.   *)
(* cfg: init (initial files), cache (templates are saved in a cache        *)
(* directory), ro (directories are not writable).                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Names == << <<"a">>, <<"b">>, <<"p">>, <<"p", "a">>, <<"p", "b">>, <<"p", "q">>,
            <<"p", "q", "a">>, <<"p", "q", "b">> >>
Dirs == << <<"1">>, <<"2">> >>
Rel == << <<"a">>, <<"b">>, <<"p">>, <<"p", "__init__">>, <<"p", "a">>,
          <<"p", "b">>, <<"p", "q">>, <<"p", "q", "__init__">>,
          <<"p", "q", "a">>, <<"p", "q", "b">> >>
Locs == [i \in 1..20 |-> Dirs[1 + ((i - 1) \div 10)] \o Rel[1 + ((i - 1) % 10)]]
DirPaths == {d \o x : d \in {<<"1">>, <<"2">>}, x \in {<<>>, <<"p">>, <<"p", "q">>}}
LocSet == {Locs[i] : i \in 1..20}
Kinds == {"py", "pyc", "tmpl", "cheetah"}

None == [t |-> "", f |-> "", imps |-> <<>>, tm |-> FALSE]
NoFiles == [py |-> None, pyc |-> None, tmpl |-> None, cheetah |-> None]
RECURSIVE Put(_, _)
Put(fs, seq) == IF seq = <<>> THEN fs
                ELSE Put([fs EXCEPT ![seq[1].loc][seq[1].k] = seq[1].c], SubSeq(seq, 2, Len(seq)))

HookInit(c) == [fs |-> Put([l \in LocSet |-> NoFiles], c.init),
                mods |-> [n \in {} |-> {}], hook |-> FALSE,
                exts |-> <<"tmpl">>, cache |-> c.cache, ro |-> c.ro, n |-> 0]

------------------------------------------------------------------------------
\* Finding: what a module name is found as in one directory, and what that
\* does to the files.  r: "no", "open" (left open), "err", or "mod"; c: the
\* text; path: the directory if it is a package
No == [r |-> "no", c |-> None, path |-> <<>>, e |-> "", ch |-> {}]
HasPy(fs, l) == l \in LocSet /\ fs[l].py # None
HasPyc(fs, l) == l \in LocSet /\ fs[l].pyc # None
\* loading the Python module or its compiled form
LoadPy(st, l, path) ==
  LET f == st.fs[l] IN
  IF f.py = None THEN [No EXCEPT !.r = "mod", !.c = f.pyc, !.path = path]
  ELSE IF f.py.f = "syn" THEN [No EXCEPT !.r = "err", !.e = "syn"]
  ELSE [No EXCEPT !.r = "mod", !.c = f.py, !.path = path,
                  !.ch = IF st.ro THEN {} ELSE {[loc |-> l, k |-> "pyc", c |-> f.py]}]
FindTmpl(st, l, exts) ==
  LET S == SelectSeq(exts, LAMBDA x : l \in LocSet /\ st.fs[l][x] # None) IN
  IF S = <<>> THEN No
  ELSE LET c == st.fs[l][S[1]] IN
       IF c.f \in {"syn", "psyn"} THEN [No EXCEPT !.r = "err", !.e = "noimp"]
       ELSE [No EXCEPT !.r = "mod", !.c = c,
                       !.ch = IF st.ro \/ st.cache THEN {}
                              ELSE {[loc |-> l, k |-> "py", c |-> c],
                                    [loc |-> l, k |-> "pyc", c |-> c]}]
FindDir(st, d, nm, hook, exts) ==
  LET l == d \o <<nm>>
      ini == l \o <<"__init__">> IN
  IF ~hook
  THEN CASE HasPy(st.fs, ini) -> LoadPy(st, ini, l)
         [] ~HasPy(st.fs, ini) /\ HasPy(st.fs, l) -> LoadPy(st, l, <<>>)
         [] OTHER -> IF l \in DirPaths THEN [No EXCEPT !.r = "open"] ELSE No
  ELSE CASE HasPy(st.fs, ini) \/ HasPyc(st.fs, ini) -> LoadPy(st, ini, l)
         [] ~(HasPy(st.fs, ini) \/ HasPyc(st.fs, ini)) /\ (HasPy(st.fs, l) \/ HasPyc(st.fs, l)) ->
              LoadPy(st, l, <<>>)
         [] OTHER -> FindTmpl(st, l, exts)
RECURSIVE Find(_, _, _, _)
Find(st, dirs, nm, acc) ==
  IF dirs = <<>> THEN acc
  ELSE LET r == FindDir(st, dirs[1], nm, st.hook, st.exts) IN
       IF r.r \in {"mod", "err"} THEN r
       ELSE Find(st, SubSeq(dirs, 2, Len(dirs)), nm, IF r.r = "open" THEN r ELSE acc)

------------------------------------------------------------------------------
\* Importing.  A result is [st, e, open]: e the error ("" none)
R(st, e) == [st |-> st, e |-> e, open |-> FALSE]
Loaded(st, n) == n \in DOMAIN st.mods
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SetChanges(fs, ch) == [l \in LocSet |-> [k \in Kinds |->
  LET S == {c \in ch : c.loc = l /\ c.k = k} IN
  IF S = {} THEN fs[l][k] ELSE (CHOOSE c \in S : TRUE).c]]
Pkg(m) == m.path # <<>>

\* module m failed: it is dropped; what imported it meanwhile keeps a module
\* which, if it is a template, has no class
Fail(st, m) ==
  LET x == st.mods[m] IN
  [st EXCEPT !.mods = [n \in DOMAIN @ \ {m} |-> [@[n] EXCEPT !.imp =
     [i \in DOMAIN @ |-> IF @[i].id = x.id /\ x.c.tm THEN [@[i] EXCEPT !.t = "?"] ELSE @[i]]]]]

RECURSIVE ImpAbs(_, _, _), ImpFrom(_, _, _), RunImps(_, _, _), ExecMod(_, _, _, _)
\* import n, having imported its first k names
ImpAbs(st, n, k) ==
  IF k = Len(n) THEN R(st, "")
  ELSE LET m == SubSeq(n, 1, k + 1) IN
       IF Loaded(st, m) THEN ImpAbs(st, n, k + 1)
       ELSE IF k > 0 /\ ~Pkg(st.mods[SubSeq(n, 1, k)]) THEN R(st, "noimp")
       ELSE LET f == Find(st, IF k = 0 THEN Dirs ELSE << st.mods[SubSeq(n, 1, k)].path >>,
                          m[k + 1], No) IN
            CASE f.r = "open" -> [R(st, "") EXCEPT !.open = TRUE]
              [] f.r = "no" -> R(st, "noimp")
              [] f.r = "err" -> R(st, f.e)
              [] OTHER ->
                   LET x == ExecMod([st EXCEPT !.fs = SetChanges(@, f.ch)], m, f.c, f.path) IN
                   IF x.open \/ x.e # "" THEN x ELSE ImpAbs(x.st, n, k + 1)
ExecMod(st, m, c, path) ==
  LET s1 == [st EXCEPT !.mods = With(@, m, [c |-> c, path |-> path, imp |-> <<>>,
                                            id |-> st.n, done |-> FALSE]),
                       !.n = @ + 1]
      r == RunImps(s1, m, c.imps) IN
  IF r.open THEN r
  ELSE IF r.e # "" \/ c.f = "exc"
  THEN [r EXCEPT !.st = Fail(@, m), !.e = IF @ = "" THEN "exc" ELSE @]
  ELSE [r EXCEPT !.st.mods[m].done = TRUE]
\* the import statements of module m: [lv, mod, name], lv 0 absolute;
\* name "" is import mod
RunImps(st, m, imps) ==
  IF imps = <<>> THEN R(st, "")
  ELSE LET i == imps[1]
           base == IF Pkg(st.mods[m]) THEN m ELSE SubSeq(m, 1, Len(m) - 1)
           bad == i.lv > 0 /\ Len(base) < i.lv
           full == IF i.lv = 0 THEN i.mod ELSE SubSeq(base, 1, Len(base) - (i.lv - 1)) \o i.mod IN
       IF bad THEN R(st, "noimp")
       ELSE LET t == IF i.name = "" THEN full ELSE full \o <<i.name>>
                r == IF i.name = "" THEN ImpAbs(st, full, 0) ELSE ImpFrom(st, full, i.name) IN
            IF r.open \/ r.e # "" THEN r
            ELSE RunImps([r.st EXCEPT !.mods[m].imp =
                            Append(@, [t |-> r.st.mods[t].c.t, id |-> r.st.mods[t].id])], m,
                         SubSeq(imps, 2, Len(imps)))
ImpFrom(st, n, nm) ==
  LET r == ImpAbs(st, n, 0) IN
  IF r.open \/ r.e # "" THEN r ELSE ImpAbs(r.st, n \o <<nm>>, Len(n))

------------------------------------------------------------------------------
Tags(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1]
           ELSE FoldLeft(LAMBDA a, x : a \o "," \o x, s[1], SubSeq(s, 2, Len(s)))
Desc(m) == m.c.t \o "[" \o Tags([i \in DOMAIN m.imp |-> m.imp[i].t]) \o "]"
Str(p) == FoldLeft(LAMBDA a, x : a \o "." \o x, p[1], SubSeq(p, 2, Len(p)))
Obs(st, r) ==
  [r |-> r,
   mods |-> LET S == SelectSeq(Names, LAMBDA n : Loaded(st, n)) IN
            [i \in 1..Len(S) |-> Str(S[i]) \o "=" \o Desc(st.mods[S[i]])],
   files |-> LET S == SelectSeq(Locs, LAMBDA l : st.fs[l].py # None \/ st.fs[l].pyc # None) IN
             [i \in 1..Len(S) |-> Str(S[i]) \o "=" \o st.fs[S[i]].py.t \o "," \o st.fs[S[i]].pyc.t],
   hooked |-> st.hook]
Res(st, r) == {[st |-> st, resp |-> Obs(st, r)]}
Done(r, ok) == IF r.open THEN {}
               ELSE Res(r.st, IF r.e # "" THEN r.e ELSE ok)

Apply1(st, o) ==
  CASE o.op = "install" ->
         IF st.hook THEN Res(st, "ok")
         ELSE Res([st EXCEPT !.hook = TRUE, !.exts = o.exts], "ok")
    [] o.op = "uninstall" -> Res([st EXCEPT !.hook = FALSE], "ok")
    [] o.op = "write" -> Res([st EXCEPT !.fs[o.loc][o.k] = o.c], "ok")
    [] o.op = "remove" -> Res([st EXCEPT !.fs[o.loc][o.k] = None], "ok")
    [] o.op = "forget" ->
         Res([st EXCEPT !.mods = [n \in {x \in DOMAIN @ : ~IsPrefix(o.name, x)} |-> @[n]]], "ok")
    [] o.op \in {"import", "call"} ->
         LET r == ImpAbs(st, o.name, 0) IN
         Done(r, IF r.e = "" /\ ~r.open THEN "ok " \o Desc(r.st.mods[o.name]) ELSE "")
    [] o.op = "from" ->
         LET r == ImpFrom(st, o.name, o.n) IN
         Done(r, IF r.e = "" /\ ~r.open THEN "ok " \o Desc(r.st.mods[o.name \o <<o.n>>]) ELSE "")
    \* loading by file name: always anew, registered under its last name
    [] o.op = "load" ->
         LET f == FindDir(st, SubSeq(o.loc, 1, Len(o.loc) - 1), o.loc[Len(o.loc)], TRUE,
                          IF o.ext = "" THEN st.exts ELSE <<o.ext>>) IN
         IF f.r = "no" THEN Res(st, "noimp")
         ELSE IF f.r = "err" THEN Res(st, f.e)
         ELSE LET n == <<o.loc[Len(o.loc)]>>
                  r == ExecMod([st EXCEPT !.fs = SetChanges(@, f.ch)], n, f.c, f.path) IN
              IF r.e # "" /\ Loaded(st, n) THEN {}
              ELSE Done(r, IF r.e = "" /\ ~r.open THEN "ok " \o Desc(r.st.mods[n]) ELSE "")

\* a module whose package failed or was forgotten is still there: how Python
\* itself goes on from there is not specified here
Orphan(st) == \E n \in DOMAIN st.mods : Len(n) > 1 /\ ~Loaded(st, SubSeq(n, 1, Len(n) - 1))
HookApply(st, o) ==
  CASE ~st.hook /\ Orphan(st) /\ o.op \in {"import", "from", "call", "load"} -> {}
    [] ~(~st.hook /\ Orphan(st) /\ o.op \in {"import", "from", "call", "load"}) -> Apply1(st, o)
=============================================================================
