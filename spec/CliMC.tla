------------------------------- MODULE CliMC -------------------------------
(* Every combination of the main options over one tree, then a second run  *)
(* of the same or of the other command; replayed in the code.              *)
EXTENDS Cli
CONSTANTS Depth, Wide
VARIABLES cfg, st, ops, resps
N(s) == << s >>
T(s) == << s, "tmpl" >>
F(p, c) == [p |-> p, c |-> c]
MCfgs == {[fs |-> << F(<<T("a")>>, "t1"), F(<<N("in")>>, "dir"),
                     F(<<N("in"), T("a")>>, "t2"), F(<<N("in"), T("b")>>, x),
                     F(<<N("in"), N("s")>>, "dir"),
                     F(<<N("in"), N("s"), T("a")>>, "t1"),
                     F(<<N("in"), N("s"), <<"c", "txt">> >>, "t2") >>] :
            x \in {"t1", "bad"}}
Dir(p, ab) == [given |-> p # <<>>, p |-> p, abs |-> ab]
Arg(p, ab) == [p |-> p, abs |-> ab]
Args(i) == IF i = <<>>
           THEN {<<>>, << Arg(<<N("a")>>, FALSE) >>, << Arg(<<N("in")>>, FALSE) >>,
                 << Arg(<<T("a")>>, FALSE), Arg(<<N("in"), N("s"), N("a")>>, FALSE) >>,
                 << Arg(<<N("in"), N("s"), <<"c", "txt">> >>, TRUE) >>}
           ELSE {<<>>, << Arg(<<N("a")>>, FALSE), Arg(<<N("zz")>>, FALSE) >>,
                 << Arg(<<N("s")>>, FALSE), Arg(<<T("b")>>, FALSE) >>}
B == BOOLEAN
Os == UNION {{[op |-> "run", cmd |-> c, idir |-> Dir(i, ia), odir |-> Dir(od, oa),
        iext |-> <<"tmpl">>, oext |-> e, recurse |-> r, flat |-> f, nobackup |-> nb,
        stdout |-> so, parallel |-> pl, json |-> "", pickle |-> "", env |-> FALSE,
        settings |-> "", shbang |-> "", encoding |-> "", stdin |-> "",
        args |-> a] :
         a \in Args(i), c \in {"compile", "fill"}, ia \in (IF Wide /\ i # <<>> THEN B ELSE {FALSE}),
         od \in {<<>>, <<N("out")>>}, oa \in (IF Wide THEN B ELSE {FALSE}),
         r \in B, f \in B,
         nb \in (IF Wide THEN B ELSE {FALSE}), so \in B, pl \in {1, 3},
         e \in {<<"py">>, <<"x", "y">>}} :
       i \in {<<>>, <<N("in")>>}}
Fix(o) == [o EXCEPT !.odir.abs = @ /\ o.odir.given,
                    !.oext = IF o.cmd = "fill" /\ @ = <<"py">> THEN <<"html">> ELSE @]
MOps(c, s, n) == IF n = 0 THEN {Fix(o) : o \in Os}
                 ELSE {s.last} \cup {[s.last EXCEPT !.nobackup = TRUE],
                                     [s.last EXCEPT !.flat = ~@],
                                     [s.last EXCEPT !.cmd = IF @ = "fill" THEN "compile" ELSE "fill",
                                                    !.oext = <<"z">>]}
MInit(c) == [fs |-> CliInit(c), last |-> <<>>]
MApply(s, o) == {[st |-> [fs |-> r.st, last |-> o], resp |-> r.resp] :
                   r \in CliApply(s.fs, o)}
E == INSTANCE Explore WITH Cfgs <- MCfgs, InitSt <- MInit, Apply <- MApply,
                           Ops <- MOps, Depth <- Depth, EmitAll <- TRUE
Init == E!EInit
Next == E!ENext

\* Design: nothing disappears; what was there and is neither an output nor
\* the backup of one is unchanged; a source is never changed; the tree is
\* closed under parents.
Keeps == [][LET o == ops'[Len(ops')]
                ds == Dsts(o, Sources(st.fs, o))
                D == {ds[i] : i \in 1..Len(ds)} IN
            \A p \in DOMAIN st.fs :
              p \in DOMAIN st'.fs /\
              (st'.fs[p] # st.fs[p] =>
                 /\ p \in D \/ ((\E d \in D : p = Bak(d)) /\ ~o.nobackup)
                 /\ ~o.stdout
                 /\ ~\E i \in 1..Len(ds) : Sources(st.fs, o)[i].src = p)]_<<st, ops>>
Closed == \A p \in DOMAIN st.fs : p # <<>> => IsDir(st.fs, Front1(p))
=============================================================================
