--------------------------------- MODULE Cli ---------------------------------
(* Reading the command line (C10), one argument at a time. An argument is a   *)
(* sequence of code points.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Args, MaxArgs
VARIABLES argv, st
Dash == 45
Eq == 61
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
LDef   == <<45, 45, 100, 101, 102>>              \* --def
LDefEq == LDef \o <<61>>                         \* --def=
LQuiet == <<45, 45, 113, 117, 105, 101, 116>>    \* --quiet
LHelp  == <<45, 45, 104, 101, 108, 112>>         \* --help
Escape == <<45, 45>>
Start == [mode |-> "free", quiet |-> 0, def |-> <<>>, files |-> <<>>, help |-> FALSE, err |-> FALSE, miss |-> FALSE]
\* letters of a group of short options: q and h
RECURSIVE Shorts(_, _)
Shorts(s, cs) == IF cs = <<>> THEN s
                 ELSE CASE cs[1] = 113 -> Shorts([s EXCEPT !.quiet = @ + 1], Tail(cs))
                        [] cs[1] = 104 -> [s EXCEPT !.help = TRUE]
                        [] OTHER -> [s EXCEPT !.err = TRUE]
LooksLikeOption(a) == Len(a) > 1 /\ a[1] = Dash
\* whatever follows a help or an unreadable argument no longer matters
RECURSIVE Read(_, _)
Read(s, a) ==
    IF s.help \/ s.err THEN s
    ELSE CASE s.mode = "files" -> [s EXCEPT !.files = Append(@, a)]
      [] s.mode = "value" -> \* an option right after --def: the --def stays without a value and adds nothing
                             IF LooksLikeOption(a) THEN Read([s EXCEPT !.miss = TRUE, !.mode = "free"], a)
                             ELSE [s EXCEPT !.def = Append(@, a), !.mode = "free"]
      [] OTHER -> CASE a = Escape -> [s EXCEPT !.mode = "files"]
                    [] a = LDef -> [s EXCEPT !.mode = "value"]
                    [] IsPrefixOf(LDefEq, a) -> [s EXCEPT !.def = Append(@, Drop(a, Len(LDefEq)))]
                    [] a = LQuiet -> [s EXCEPT !.quiet = @ + 1]
                    [] a = LHelp -> [s EXCEPT !.help = TRUE]
                    [] IsPrefixOf(Escape, a) -> [s EXCEPT !.err = TRUE]
                    [] LooksLikeOption(a) -> Shorts(s, Tail(a))
                    [] OTHER -> [s EXCEPT !.files = Append(@, a)]
RECURSIVE ReadAll(_, _)
ReadAll(s, as) == IF as = <<>> THEN s ELSE ReadAll(Read(s, as[1]), Tail(as))
Result(s) == IF s.help THEN "help"
             ELSE IF s.err \/ s.quiet > 1 \/ ((s.miss \/ s.mode = "value") /\ s.def = <<>>) THEN "error" ELSE "ok"

Init == argv = <<>> /\ st = Start
Next == \E a \in Args : Len(argv) < MaxArgs /\ argv' = Append(argv, a) /\ st' = Read(st, a)
Spec == Init /\ [][Next]_<<argv, st>>
-----------------------------------------------------------------------------
RECURSIVE IsSubseq(_, _)
IsSubseq(p, s) == IF p = <<>> THEN TRUE ELSE IF s = <<>> THEN FALSE
                  ELSE IF p[1] = s[1] THEN IsSubseq(Tail(p), Tail(s)) ELSE IsSubseq(p, Tail(s))
Accepted == Result(st) = "ok"
\* the files are arguments, verbatim and in order
FilesInOrder == IsSubseq(st.files, argv)
\* nothing is lost: every argument is the flag, a definition option, its value, the escape or a file
Escaped == LET esc == {i \in 1..Len(argv) : argv[i] = Escape /\ \A j \in 1..i-1 : argv[j] # Escape}
           IN IF esc = {} THEN Len(argv) + 1 ELSE CHOOSE i \in esc : TRUE
OptAt(P(_)) == {i \in 1..Escaped-1 : P(argv[i])}
IsInline(a) == IsPrefixOf(LDefEq, a)
IsQ(a) == a = LQuiet \/ a = <<45, 113>>
IsD(a) == a = LDef
Conserved == Accepted =>
    /\ st.quiet = Cardinality(OptAt(IsQ))
    /\ Len(st.def) + Len(st.files) =
         Len(argv) - Cardinality(OptAt(IsQ)) - Cardinality(OptAt(IsD)) - (IF Escaped <= Len(argv) THEN 1 ELSE 0)
    /\ Len(st.def) <= Cardinality(OptAt(IsInline)) + Cardinality(OptAt(IsD))
    /\ ~st.miss /\ st.mode # "value" => Len(st.def) = Cardinality(OptAt(IsInline)) + Cardinality(OptAt(IsD))
\* the three lists do not depend on how they are interleaved: reading a flag, a file or an inline
\* definition in between commutes with its neighbours
Plain(a) == ~LooksLikeOption(a)
Commute == \A a \in Args, b \in Args :
    (st.mode = "free" /\ ~st.err /\ ~st.help /\ Plain(a) /\ (b = LQuiet \/ IsPrefixOf(LDefEq, b)))
      => Read(Read(st, a), b) = Read(Read(st, b), a)
AfterEscape == [][st.mode = "files" /\ ~st.err /\ ~st.help => st'.files = Append(st.files, argv'[Len(argv')])
                                           /\ st'.def = st.def /\ st'.quiet = st.quiet]_<<argv, st>>
MCArgs == {<<45,113>>, <<45,113,113>>, LQuiet, LDef, LDefEq \o <<120>>, LDefEq, <<97>>, <<45>>, Escape, <<45,122>>, LHelp, <<>>}
=============================================================================
