----------------------------- MODULE BlocksEnum -----------------------------
(* Every sequence of tags up to Depth over the alphabet of this run; a       *)
(* sequence whose prefix is already in error is not extended further than    *)
(* one tag (the verdict cannot change).                                      *)
EXTENDS Blocks, Emit
CONSTANTS Depth, Alphabet, Layout, Dis, En
VARIABLES tags, s
Tag(t, k) == [t |-> t, k |-> k]
Alpha ==
  CASE Alphabet = "core" ->
         {Tag("text", ""), Tag("open", "if"), Tag("end", "if"), Tag("clause", "else"),
          Tag("clause", "elif"), Tag("open", "for"), Tag("end", "for"), Tag("brk", "break"),
          Tag("cmt", "")}
    [] Alphabet = "try" ->
         {Tag("text", ""), Tag("open", "try"), Tag("end", "try"), Tag("clause", "except"),
          Tag("clause", "bexcept"), Tag("clause", "else"), Tag("clause", "finally"),
          Tag("open", "capture"), Tag("end", "capture")}
    [] Alphabet = "regions" ->
         {Tag("text", "")} \cup {Tag("open", k) : k \in Regions \cup {"if"}}
         \cup {Tag("end", k) : k \in Regions \cup {"if"}}
         \cup {Tag("clause", "else"), Tag("arg", "")}
    [] Alphabet = "funcs" ->
         {Tag("text", ""), Tag("brk", "break"), Tag("clause", "else")}
         \cup {Tag("open", k) : k \in Funcs \cup {"for"}} \cup {Tag("end", k) : k \in Funcs \cup {"for"}}
    [] Alphabet = "short" ->
         {Tag("text", ""), Tag("short", "if"), Tag("short", "for"), Tag("short", "try"),
          Tag("sclause", "else"), Tag("sclause", "elif"), Tag("sclause", "except"),
          Tag("sclause", "bexcept"), Tag("sclause", "finally"), Tag("cmt", ""),
          Tag("open", "if"), Tag("end", "if"), Tag("clause", "else")}
    [] Alphabet = "nest" ->
         {Tag("text", ""), Tag("open", "for"), Tag("end", "for"), Tag("shopen", "for"),
          Tag("shend", "for"), Tag("shend", "if"), Tag("shopen", "capture"),
          Tag("open", "if"), Tag("end", "if"), Tag("end", "ifx"), Tag("end", ""), Tag("raw", ""),
          Tag("end", "raw"), Tag("end", "foo")}
    [] Alphabet = "misc" ->
         {Tag("text", "")} \cup
         {Tag("stmt", k) : k \in {"errorCatcher", "transform", "slurp", "super", "import",
                                   "attr", "shBang", "return", "stop", "set", "echo", "silent"}}
    [] Alphabet = "all" ->
         {Tag("text", ""), Tag("brk", "continue"), Tag("stmt", "set"), Tag("stmt", "echo"),
          Tag("stmt", "pass"), Tag("arg", ""), Tag("raw", "")}
         \cup {Tag("open", k) : k \in Closeable} \cup {Tag("end", k) : k \in Closeable \cup {"raw"}}
         \cup {Tag("short", k) : k \in Cond \cup Loops \cup {"try"}}
         \cup {Tag(t, c) : t \in {"clause", "sclause"},
                           c \in {"else", "elif", "except", "bexcept", "finally"}}
Cfg == [layout |-> Layout, dis |-> Dis, en |-> En, lax |-> FALSE]
Init == tags = <<>> /\ s = Begin
Next == /\ Len(tags) < Depth
        /\ s.err = 0
        /\ \E tg \in Alpha : /\ tags' = Append(tags, tg)
                             /\ s' = Step(s, tg, Len(tags) + 1, Cfg)
        /\ Emit([cfg |-> Cfg, tags |-> tags', allowed |-> Verdict(tags', Cfg),
                 known |-> Verdict(tags', [Cfg EXCEPT !.lax = TRUE])])
\* sanity of the machine: the stack never loses its base, an error names a tag,
\* and closing every open block in order makes any error-free structure close
Sane == /\ Len(s.stk) >= 1 /\ s.stk[1].k = "base"
        /\ s.err \in 0..Len(tags)
        /\ s.err # 0 <=> s.kind # ""
Balanced == (s.err = 0 /\ ~s.raw) =>
  LET m == Len(s.stk)
      closing == [j \in 1..(m - 1) |-> Tag("end", s.stk[m + 1 - j].k)]
      c == [layout |-> "lines", dis |-> <<>>, en |-> <<>>, lax |-> FALSE] IN
  Run(s, tags \o closing, Len(tags) + 1, c).err = 0
=============================================================================
