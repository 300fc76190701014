---------------------------- MODULE CompileCache ----------------------------
(***************************************************************************)
(* Compile requests and the store of kept classes.                         *)
(* A request names its source text or a file, the names to give, compiler  *)
(* settings, base class, module globals, preprocessors, which template API *)
(* class it goes through, and whether to use and to feed the store.        *)
(* State: the files (contents and modification time), the working          *)
(* directory, the store (request key -> class number) and how many classes *)
(* were made.  An answer is the identity of the class together with what   *)
(* an instance of it renders, both fixed by the request alone.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CInit(cfg) == [cwd |-> "d1", n |-> 0, cache |-> <<>>,
               files |-> [d \in {"d1", "d2"} |->
                           [f \in {"f1", "f2"} |->
                              [c |-> d \o f, t |-> 1000]]]]

\* defaults of the three template API classes
Default(o) ==
  [settings |-> IF o.settings # "" THEN o.settings
                ELSE IF o.api = "M" THEN "ex" ELSE "none",
   main |-> IF o.main # "" THEN o.main
            ELSE IF o.api = "M" /\ o.op # "inst" THEN "mm" ELSE "respond",
   keep |-> IF o.keep # "" THEN o.keep = "y" ELSE o.api # "N",
   use  |-> IF o.use # "" THEN o.use = "y" ELSE TRUE]

File(st, o) == st.files[IF o.dir = "" THEN st.cwd ELSE o.dir][o.file]
Content(st, o) == IF o.file = "" THEN o.src ELSE File(st, o).c
ModName(o) == IF o.mod # "" THEN o.mod
              ELSE IF o.file # "" THEN o.file
              ELSE "DynamicallyCompiledCheetahTemplate"
ClsName(o) == IF o.cls # "" THEN o.cls ELSE ModName(o)
\* API class "P" has preprocessors of its own
PreOf(o) == IF o.pre = "none" /\ o.api = "P" THEN "x1" ELSE o.pre
\* what a preprocessor makes of the @x of the text
Pre(p) == IF p = "x1" THEN "1" ELSE IF p = "x2" THEN "2"
          ELSE IF p = "f" THEN "fun" ELSE IF p = "l" THEN "twice" ELSE "@x"

Key(st, o) ==
  LET d == Default(o)
      fromFile == o.file # "" /\ PreOf(o) = "none" IN
  [text |-> IF fromFile THEN "" ELSE Content(st, o) \o "/" \o Pre(PreOf(o)),
   file |-> IF fromFile THEN <<IF o.dir = "" THEN st.cwd ELSE o.dir, o.file,
                               File(st, o).t, o.dir = "" /\ o.op # "inst">> ELSE <<>>,
   cls |-> ClsName(o), mod |-> ModName(o), main |-> d.main,
   rel |-> o.file # "" /\ o.mod = "" /\ o.dir = "" /\ o.op # "inst",
   settings |-> d.settings, base |-> o.base, glob |-> o.glob]

\* the text every template of the study has, rendered
Desc(st, o) ==
  LET d == Default(o) IN
  "T:" \o Content(st, o) \o " X:" \o Pre(PreOf(o))
   \o (IF d.settings \in {"pc", "pc2"} THEN "" ELSE " %%p")
   \o (IF d.settings = "ex" THEN "" ELSE " !!e")
   \o " G:" \o (IF o.glob = "" THEN "-" ELSE o.glob)
   \o " B:" \o (IF o.base = "" THEN "-" ELSE o.base)
Names(o) == " " \o ClsName(o) \o "." \o Default(o).main

Add(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]

\* the allowed outcomes: next state, which class (0: none), what it renders
COut(st, o) ==
  LET k == Key(st, o)
      d == Default(o)
      text == Desc(st, o) \o Names(o) \o
              (IF o.op = "source" THEN "" ELSE " m:" \o ModName(o))
      hit == d.use /\ k \in DOMAIN st.cache
      made == [st EXCEPT !.n = @ + 1]
      out(s, i) == [st |-> s, k |-> i, text |-> text]
      keep == out([made EXCEPT !.cache = Add(@, k, made.n)], made.n)
      drop == out(made, made.n)
      old == out(st, st.cache[k])
  IN
  IF o.op = "source" THEN {out(st, 0)}
  \* values that cannot be compared for being interchangeable (a set) need
  \* not be recognised as the same ones
  ELSE IF o.glob = "{1}"
  THEN {drop} \cup (IF d.keep THEN {keep} ELSE {})
              \cup (IF hit THEN {old} ELSE {})
  ELSE IF hit THEN {old}
  ELSE IF ~d.keep THEN {drop}
  ELSE IF k \in DOMAIN st.cache    \* not asked to use it: either may be kept
  THEN {drop, keep}
  ELSE {keep}

CApply(st, o) ==
  IF o.op = "cd" THEN {[st |-> [st EXCEPT !.cwd = o.dir], resp |-> "ok"]}
  ELSE IF o.op = "write"
  THEN {[st |-> [st EXCEPT !.files[o.dir][o.file] = [c |-> o.src, t |-> o.t]],
         resp |-> "ok"]}
  ELSE {[st |-> r.st, resp |-> (IF r.k = 0 THEN "src " ELSE
                                "k" \o ToString(r.k) \o " ") \o r.text] :
          r \in COut(st, o)}
=============================================================================
