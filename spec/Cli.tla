-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line: "compile" and "fill" over a tree of files.            *)
(* A path is a sequence of names from the root of the tree; a name is a    *)
(* sequence of its dot-separated parts (a.b.tmpl is <<"a","b","tmpl">>).   *)
(* State: the tree, a function from paths to contents: "dir", a template   *)
(* ("t1", ...), "=s" for the text s, "py:C:s" for a module with a template *)
(* class C whose instances render as s, "init" for an empty package file.  *)
(* One operation is one run of the command; its answer is the tree after   *)
(* it, what it wrote to standard output and whether it reported success.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Front1(s) == SubSeq(s, 1, Len(s) - 1)
Last1(s) == s[Len(s)]
IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
RECURSIVE Join(_, _)
Join(s, sep) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1]
                ELSE s[1] \o sep \o Join(SubSeq(s, 2, Len(s)), sep)
NameStr(n) == Join(n, ".")
PathStr(p) == IF p = <<>> THEN "." ELSE Join([i \in 1..Len(p) |-> NameStr(p[i])], "/")

Fs(cfg) == [p \in {cfg.fs[i].p : i \in 1..Len(cfg.fs)} \cup {<<>>} |->
              IF p = <<>> THEN "dir"
              ELSE (CHOOSE i \in 1..Len(cfg.fs) : cfg.fs[i].p = p)]
CliInit(cfg) == [p \in DOMAIN Fs(cfg) |->
                   IF p = <<>> THEN "dir" ELSE cfg.fs[Fs(cfg)[p]].c]
IsDir(fs, p) == p \in DOMAIN fs /\ fs[p] = "dir"
IsFile(fs, p) == p \in DOMAIN fs /\ fs[p] # "dir"

(* --------------------------- the templates ----------------------------- *)
\* the value of $x: the data files come before the environment, JSON first
\* "U" is a letter outside ASCII, "L" the same in a file written as Latin-1
XVal(o) == IF o.json = "U" /\ o.encoding = "latin-1" /\ ~o.stdout /\ o.stdin = ""
           THEN "L"
           ELSE IF o.json # "" THEN o.json ELSE IF o.pickle # "" THEN o.pickle
           ELSE IF o.env THEN "E" ELSE "!"
AtTok(o) == o.settings = "at"          \* the placeholder token made "@"
ModName(n) == Len(n) = 1 /\ n[1] \notin {"1a", "a-b", ""}
\* text rendered, "!" where it cannot be
Rendered(c, o, x) ==
  IF c = "bad" /\ ~AtTok(o) THEN "!"
  ELSE IF c = "bad" THEN "$[<bad>"
  ELSE IF c = "rbad" \/ c = "kill" THEN "!"
  ELSE IF c = "t1" THEN "one<t1>"
  ELSE IF c = "t2" THEN "two<t2>"
  ELSE IF c = "x" THEN IF AtTok(o) THEN "$x<x>"
                       ELSE IF x = "!" THEN "!" ELSE x \o "<x>"
  ELSE IF c = "at" THEN IF ~AtTok(o) THEN "@x<at>"
                        ELSE IF x = "!" THEN "!" ELSE x \o "<at>"
  ELSE SubSeq(c, 2, Len(c))     \* "=s"
CanCompile(c, o) == c # "bad" \/ AtTok(o)
\* the answer of an instance of the compiled class, x being "X"
PyRendered(c, o) == IF c \in {"rbad", "kill"} THEN c ELSE Rendered(c, o, "X")

(* ------------------------------ the inputs ----------------------------- *)
\* an argument names a path under the input directory unless absolute
ArgPath(o, a) == IF a.abs THEN a.p ELSE o.idir.p \o a.p
AppendExt(p, e) == Front1(p) \o << Last1(p) \o e >>
HasExt(p, e) == IsSuf(e, Last1(p)) /\ Len(Last1(p)) > Len(e)
Under(fs, d, e) == {p \in DOMAIN fs : IsPre(d, p) /\ p # d /\ IsFile(fs, p)
                                      /\ HasExt(p, e)}
\* the sources one argument selects; "dir" and "none" for the ones it cannot
Selected(fs, o, a) ==
  LET p == ArgPath(o, a) IN
  IF IsDir(fs, p) THEN IF o.recurse THEN Under(fs, p, o.iext) ELSE {}
  ELSE IF IsFile(fs, p) THEN {p}
  ELSE IF p # <<>> /\ ~HasExt(p, o.iext) /\ IsFile(fs, AppendExt(p, o.iext))
  THEN {AppendExt(p, o.iext)} ELSE {}
ArgIsDir(fs, o) == \E i \in 1..Len(o.args) :
                     IsDir(fs, ArgPath(o, o.args[i])) /\ ~o.recurse
\* a sequence of [src, abs]; the order within a directory is not specified
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(SubSeq(ss, 2, Len(ss)))
Sources(fs, o) ==
  LET one(set, ab) == LET q == SetToSeq(set) IN
                      [j \in 1..Len(q) |-> [src |-> q[j], abs |-> ab]] IN
  IF o.args = <<>> THEN one(Under(fs, o.idir.p, o.iext), o.idir.abs)
  ELSE Concat([i \in 1..Len(o.args) |->
         one(Selected(fs, o, o.args[i]), o.args[i].abs \/ o.idir.abs)])
Missing(fs, o) == {i \in 1..Len(o.args) :
                    LET p == ArgPath(o, o.args[i]) IN
                    ~IsDir(fs, p) /\ Selected(fs, o, o.args[i]) = {}}
\* whether the order of the sources is fixed by the arguments
Ordered(fs, o) == /\ o.args # <<>> /\ o.parallel <= 1
                  /\ \A i \in 1..Len(o.args) : ~IsDir(fs, ArgPath(o, o.args[i]))

(* ----------------------------- the outputs ----------------------------- *)
StripExt(n, e) == IF Len(e) > 0 /\ IsSuf(e, n) /\ Len(n) > Len(e)
                  THEN SubSeq(n, 1, Len(n) - Len(e)) ELSE n
Common(p, q) == Max({n \in 0..Len(p) : n <= Len(q) /\
                       SubSeq(p, 1, n) = SubSeq(q, 1, n)})
Base(o, s) ==     \* [abs, p]: relative to the input directory where inside it
  LET inside == s.abs = o.idir.abs /\ IsPre(o.idir.p, s.src)
      rest == IF inside THEN SubSeq(s.src, Len(o.idir.p) + 1, Len(s.src))
              ELSE s.src IN
  [abs |-> s.abs /\ ~inside,
   p |-> Front1(rest) \o << StripExt(Last1(rest), o.iext) >>]
BaseName(o, s) == Last1(Base(o, s).p)
Dst(o, s) ==
  LET b == Base(o, s)
      bare == IF o.flat THEN << Last1(b.p) >>
              ELSE IF ~b.abs THEN b.p
              ELSE IF ~o.odir.given THEN b.p
              ELSE IF ~o.odir.abs THEN << Last1(b.p) >>
              \* both absolute: what follows the deepest directory they share
              ELSE SubSeq(b.p, Common(o.odir.p, Front1(b.p)) + 1, Len(b.p)) IN
  AppendExt(o.odir.p \o bare, o.oext)
Bak(d) == AppendExt(d, << "bak" >>)

\* the first line of a module, where another one is asked for
ShBang(o) == IF o.shbang = "" THEN "" ELSE "|" \o o.shbang
Content(fs, o, s) ==
  LET c == fs[s.src] IN
  IF o.cmd = "compile"
  THEN IF ModName(BaseName(o, s)) /\ CanCompile(c, o)
       THEN "py:" \o NameStr(BaseName(o, s)) \o ":" \o PyRendered(c, o)
            \o ShBang(o) ELSE "!"
  ELSE LET r == Rendered(c, o, XVal(o)) IN IF r = "!" THEN "!" ELSE "=" \o r
Parents(p) == {SubSeq(p, 1, n) : n \in 1..(Len(p) - 1)}
\* the output cannot be put there
Blocked(fs, d) == IsDir(fs, d) \/ \E q \in Parents(d) : IsFile(fs, q)
Good(fs, o, s) == /\ o.settings # "invalid"
                  /\ Content(fs, o, s) # "!"
                  /\ o.stdout \/ ~Blocked(fs, Dst(o, s))

\* one output written: directories made, the former output kept
Put(fs, o, s, c) ==
  LET d == Dst(o, s)
      new == Parents(d) \ DOMAIN fs
      init == IF o.cmd = "compile" THEN {q \o << << "__init__", "py" >> >> : q \in new}
              ELSE {}
      bak == IF d \in DOMAIN fs /\ ~o.nobackup THEN {Bak(d)} ELSE {} IN
  [p \in DOMAIN fs \cup new \cup init \cup bak \cup {d} |->
     IF p = d THEN c ELSE IF p \in bak THEN fs[d] ELSE IF p \in new THEN "dir"
     ELSE IF p \in init THEN "init" ELSE fs[p]]
RECURSIVE PutAll(_, _, _, _)
PutAll(fs0, fs, o, ss) ==
  IF ss = <<>> THEN fs
  ELSE PutAll(fs0, Put(fs, o, ss[1], Content(fs0, o, ss[1])), o, SubSeq(ss, 2, Len(ss)))

(* ------------------------------- a run --------------------------------- *)
Tree(fs) == [q \in {PathStr(p) : p \in DOMAIN fs} |->
               fs[CHOOSE p \in DOMAIN fs : PathStr(p) = q]]
Bag(ss) == [x \in {ss[i] : i \in 1..Len(ss)} \cup {""} |->
              Cardinality({i \in 1..Len(ss) : ss[i] = x})]
Res(fs, out, ord, ok, warn) ==
  [st |-> fs, resp |-> [tree |-> Tree(fs), ok |-> ok, out |-> Bag(out),
                        order |-> IF ord THEN out ELSE <<>>,
                        warn |-> [w \in warn \cup {""} |-> 1],
                        noise |-> FALSE]]
\* A collision, a destination that is also read, a source selected twice:
\* what happens without --flat is not specified.
Dsts(o, ss) == [i \in 1..Len(ss) |-> Dst(o, ss[i])]
NoDup(q) == Cardinality({q[i] : i \in 1..Len(q)}) = Len(q)
Open(fs, o) ==
  LET ss == Sources(fs, o)
      ds == Dsts(o, ss)
      D == {ds[i] : i \in 1..Len(ds)} IN
  \/ ~NoDup(ds) /\ ~o.flat /\ ~o.stdout
  \/ \E i \in 1..Len(ss) : ss[i].src \in D \cup {Bak(d) : d \in D}
  \/ \E d \in D : Bak(d) \in D \/ (o.cmd = "compile" /\ Last1(d) = << "__init__", "py" >>)
       \/ (IsDir(fs, Bak(d)) /\ ~o.nobackup)
       \/ \E e \in D : d \in Parents(e)
  \/ \E i \in 1..Len(ss) : LET c == fs[ss[i].src] IN
       \/ c = "init" \/ SubSeq(c \o "   ", 1, 3) = "py:"
       \/ SubSeq(c \o "   ", 1, 2) \in {"=$", "=@", "=L"}
Subseqs(ss) == {SelectSeq([i \in 1..Len(ss) |-> <<i, ss[i]>>], LAMBDA x : x[1] \in I) :
                  I \in SUBSET (1..Len(ss))}
Seconds(q) == [i \in 1..Len(q) |-> q[i][2]]
Apply(fs, o) ==
  LET ss == Sources(fs, o)
      warn == {NameStr(Last1(ArgPath(o, o.args[i]))) : i \in Missing(fs, o)}
      ord == o.stdout /\ Ordered(fs, o)
      Pieces(q) == [i \in 1..Len(q) |->
                      LET c == Content(fs, o, q[i]) IN
                      IF o.cmd = "fill" THEN SubSeq(c, 2, Len(c)) ELSE c] IN
  IF o.stdin # "" THEN
    LET c == IF o.cmd = "fill" THEN Rendered(o.stdin, o, XVal(o))
             ELSE IF CanCompile(o.stdin, o)
                  THEN "py:DynamicallyCompiledCheetahTemplate:" \o PyRendered(o.stdin, o) ELSE "!"
    IN {Res(fs, IF c = "!" \/ o.settings = "invalid" THEN <<>> ELSE <<c>>,
            FALSE, c # "!" /\ o.settings # "invalid", {})}
  ELSE IF o.args = <<>> /\ ~o.recurse THEN {Res(fs, <<>>, FALSE, FALSE, {})}
  ELSE IF ArgIsDir(fs, o) THEN {Res(fs, <<>>, FALSE, FALSE, w) : w \in SUBSET warn}
  ELSE IF o.flat /\ ~NoDup(Dsts(o, ss)) THEN {Res(fs, <<>>, FALSE, FALSE, warn)}
  ELSE LET good == SelectSeq(ss, LAMBDA s : Good(fs, o, s)) IN
    IF good = ss
    THEN {Res(IF o.stdout THEN fs ELSE PutAll(fs, fs, o, ss),
              IF o.stdout THEN Pieces(ss) ELSE <<>>, ord, TRUE, warn)}
    \* some input fails: reported, its output untouched, the others complete
    \* or not begun
    ELSE {LET r == Seconds(q) IN
          Res(IF o.stdout THEN fs ELSE PutAll(fs, fs, o, r),
              IF o.stdout THEN Pieces(r) ELSE <<>>, ord, FALSE, warn) :
          q \in Subseqs(good)}


\* what is not specified is not judged (there is no allowed answer)
CliApply(fs, o) == IF o.stdin = "" /\ Open(fs, o) THEN {} ELSE Apply(fs, o)
=============================================================================
