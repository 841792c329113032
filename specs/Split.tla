------------------------------- MODULE Split -------------------------------
(* How a file of definitions and expressions is divided into its comment, its directives and its items: a machine that
   reads the file a line at a time. A line is [c, ...] with c one of
     "blank"  nothing or spaces only,
     "note"   a comment, of text t,
     "dir"    directives d, alone on the line,
     "baddir" something else in brackets,
     "code"   anything else; k is what an item that begins with it is ("ty", "im", "ex").
   tt, lt, rt and raw are its text, without the spaces at both ends, at its left, at its right, and as it stands. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* ph: "top" only file comments so far; "head" behind them, directives may follow; "gap" between items;
   "notes" comments before an item; "code" in an item *)
Begin == [ph |-> "top", doc |-> <<>>, dir |-> {}, it |-> <<>>, pend |-> <<>>, bad |-> FALSE, odd |-> FALSE, n |-> 0]

Item(s, l, doc) == [s EXCEPT !.ph = "code", !.pend = <<>>,
                             !.it = Append(@, [k |-> l.k, line |-> s.n + 1, ls |-> <<l>>, doc |-> doc])]
More(s, l) == [s EXCEPT !.it[Len(s.it)].ls = Append(@, l)]
Code(s, l) == CASE s.ph = "code" -> More(s, l)
                [] s.ph = "top" -> [Item(s, l, s.doc) EXCEPT !.doc = <<>>]     \* the comment right before the first item is the item's
                [] s.ph = "notes" -> Item(s, l, s.pend)
                [] OTHER -> Item(s, l, <<>>)
Read(s, l) ==
    CASE l.c = "blank" -> [s EXCEPT !.pend = <<>>,      \* comments on their own belong to no item
                                    !.ph = IF s.ph = "top" /\ s.doc = <<>> THEN "top"
                                           ELSE IF s.ph \in {"top", "head"} THEN "head" ELSE "gap"]
      [] l.c = "note" -> CASE s.ph = "top" -> [s EXCEPT !.doc = Append(@, l.t)]
                           [] s.ph = "code" -> More(s, l)     \* comments stand before items, not in them
                           [] OTHER -> [s EXCEPT !.ph = "notes", !.pend = Append(@, l.t)]
      [] l.c \in {"dir", "baddir"} ->
            IF s.ph \in {"top", "head"}
            THEN IF l.c = "dir" THEN [s EXCEPT !.ph = "head", !.dir = @ \cup l.d] ELSE [s EXCEPT !.bad = TRUE]
            ELSE Code([s EXCEPT !.odd = @ \/ s.it = <<>>], l)       \* directives behind a second comment: not specified
      [] OTHER -> Code(s, l)
Line(s, l) == IF s.bad THEN s ELSE [Read(s, l) EXCEPT !.n = s.n + 1]

RECURSIVE Run(_, _, _)
Run(s, ls, i) == IF i > Len(ls) THEN s ELSE Run(Line(s, ls[i]), ls, i + 1)
Split(ls) == Run(Begin, ls, 1)

(* what a reader of the file is told *)
RECURSIVE Join(_, _)
Join(xs, sep) == IF xs = <<>> THEN "" ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o sep \o Join(Tail(xs), sep)
Text(ls, eol) == LET n == Len(ls) IN
    Join([i \in 1..n |-> IF n = 1 THEN ls[1].tt ELSE IF i = 1 THEN ls[1].lt ELSE IF i = n THEN ls[n].rt ELSE ls[i].raw], eol)
Doc(d) == LET t == Join(d, "\n") IN IF t = "" THEN <<>> ELSE <<t>>
Of(s, k, eol) == LET q == SelectSeq(s.it, LAMBDA x : x.k = k)
                 IN [i \in 1..Len(q) |-> [k |-> k, line |-> q[i].line, code |-> Text(q[i].ls, eol), doc |-> Doc(q[i].doc)]]
Items(s, eol) == Of(s, "ty", eol) \o Of(s, "im", eol) \o Of(s, "ex", eol)
--------------------------------------------------------------------------------
(* every file up to a length *)
CONSTANTS MaxLen
L(c, k, t, d, raw, lt, rt, tt) == [c |-> c, k |-> k, t |-> t, d |-> d, raw |-> raw, lt |-> lt, rt |-> rt, tt |-> tt]
P(c, k, d, x) == L(c, k, "", d, x, x, x, x)
Alphabet == << P("blank", "", {}, ""), L("blank", "", "", {}, "  ", "", "", ""),
               L("note", "", "about", {}, "# about", "# about", "# about", "# about"), P("note", "", {}, "#"),
               P("dir", "ex", {"fail-fast"}, "[fail-fast]"), P("dir", "ex", {"no-parallelise"}, "[no-parallelise]"),
               P("code", "ty", {}, "def-ty A { x:Num }"), P("code", "im", {}, "def f () { \\ 1 }"),
               L("code", "ex", "", {}, " | + 2 ", "| + 2 ", " | + 2", "| + 2") >>
VARIABLES ls, s
vars == <<ls, s>>
Lines(q) == [i \in 1..Len(q) |-> Alphabet[q[i]]]
Init == ls = <<>> /\ s = Begin
Next == /\ Len(ls) < MaxLen
        /\ \E j \in 1..Len(Alphabet) : ls' = Append(ls, j) /\ s' = Line(s, Alphabet[j])
Spec == Init /\ [][Next]_vars

(* every line of code is in exactly one item, in order, with the item's first line at its number *)
Covered == ~s.bad =>
    /\ \A i \in 1..Len(s.it) : LET x == s.it[i] IN
           /\ \A j \in 1..Len(x.ls) : Lines(ls)[x.line + j - 1] = x.ls[j]
           /\ x.ls[1].c # "blank" /\ (x.ls[1].c # "note")
           /\ i < Len(s.it) => x.line + Len(x.ls) < s.it[i + 1].line
    /\ \A i \in 1..Len(ls) : Alphabet[ls[i]].c = "code" =>
           Cardinality({x \in 1..Len(s.it) : s.it[x].line <= i /\ i < s.it[x].line + Len(s.it[x].ls)}) = 1
Same(a, b) == /\ a.bad = b.bad /\ a.dir = b.dir
              /\ [i \in 1..Len(a.it) |-> <<a.it[i].k, a.it[i].ls>>] = [i \in 1..Len(b.it) |-> <<b.it[i].k, b.it[i].ls>>]
Put(q, i, x) == SubSeq(q, 1, i) \o x \o SubSeq(q, i + 1, Len(q))
(* more blank lines at a blank line, or a comment on its own behind the first item, change no item *)
Respaced == \A i \in 1..Len(ls) : Alphabet[ls[i]].c = "blank" =>
    /\ Same(s, Split(Lines(Put(ls, i, <<1>>))))
    /\ Same(s, Split(Lines(Put(ls, i, <<2, 1>>))))
    /\ Run(Begin, Lines(SubSeq(ls, 1, i)), 1).it # <<>> => Same(s, Split(Lines(Put(ls, i, <<3, 1>>))))
=============================================================================
