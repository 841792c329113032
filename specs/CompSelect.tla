----------------------------- MODULE CompSelect ------------------------------
(* Asking for suggestions and replacing the typed word by one (C05, C07), as   *)
(* seen by one user: the line, the request, the answers in the order they come,*)
(* and walking through them.                                                   *)
EXTENDS LineOps, TLC
CONSTANTS Lines,     \* lines that can be on the screen (exploration)
          Answers,   \* answers a source may give (exploration)
          Lim, MaxItems
VARIABLES line, pos,    \* the input line
          live,         \* a request is current
          typed,        \* line and cursor at the request: <<line, cursor>>
          items,        \* suggestions on offer
          hl,           \* the selected one, 0 = none
          put           \* what stands in the place of the typed word now
vars == <<line, pos, live, typed, items, hl, put>>
Init == /\ line = <<>> /\ pos = 0 /\ live = FALSE /\ typed = <<<<>>, 0>> /\ items = <<>> /\ hl = 0
        /\ put = <<>>
WStart == WordPos(typed[1], typed[2])
Word   == SubSeq(typed[1], WStart + 1, typed[2])
Before == Pre(typed[1], WStart)
After  == Post(typed[1], typed[2])

SetLine(s, p) == line' = s /\ pos' = p /\ UNCHANGED <<live, typed, items, hl, put>>
Request == /\ typed' = <<line, pos>> /\ live' = TRUE /\ items' = <<>> /\ hl' = 0
           /\ put' = SubSeq(line, WordPos(line, pos) + 1, pos)
           /\ UNCHANGED <<line, pos>>
\* what a source is asked
AskedInput == line
AskedCursor == BytesOf(Pre(line, pos))
AskedWord == BytesOf(Pre(line, WordPos(line, pos)))
Answer(ts) == /\ live
              /\ items' = items \o (IF Len(ts) > Lim THEN SubSeq(ts, 1, Lim) ELSE ts)
              /\ UNCHANGED <<line, pos, live, typed, hl, put>>
Reset == live' = FALSE /\ items' = <<>> /\ hl' = 0 /\ UNCHANGED <<line, pos, typed, put>>
\* the shell only walks while there are suggestions
Choose(h) == /\ items # <<>> /\ hl' = h
             /\ put' = (IF h = 0 THEN Word ELSE items[h])
             /\ line' = Before \o put' \o After
             /\ pos' = Len(Before) + Len(put')
             /\ UNCHANGED <<live, typed, items>>
NextOf(h) == IF h = Len(items) THEN 0 ELSE h + 1
PrevOf(h) == IF h = 0 THEN Len(items) ELSE h - 1
SelNext == Choose(NextOf(hl))
SelPrev == Choose(PrevOf(hl))
Next == \/ \E s \in Lines, p \in 0..3 : p <= Len(s) /\ ~live /\ SetLine(s, p)
        \/ ~live /\ Request
        \/ \E ts \in Answers : Len(items) + Len(ts) <= MaxItems /\ Answer(ts)
        \/ (Reset /\ live) \/ SelNext \/ SelPrev
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* C05: the line is always the original with the typed word replaced by what is selected; with nothing
\* selected it is the original
Replaced == (live /\ items # <<>>) => line = Before \o (IF hl = 0 THEN Word ELSE items[hl]) \o After
Inverse == \A h \in 0..Len(items) : PrevOf(NextOf(h)) = h /\ NextOf(PrevOf(h)) = h
RECURSIVE Go(_, _)
Go(k, h) == IF k = 0 THEN h ELSE Go(k - 1, NextOf(h))
Cyclic == Go(Len(items) + 1, hl) = hl /\ \A h \in 0..Len(items) : \E k \in 0..Len(items) : Go(k, hl) = h
PutInPlace == (live /\ items # <<>>) => SubSeq(line, WStart + 1, WStart + Len(put)) = put
\* C07: the word start is a place in the line before the cursor with no separator in between
WordOK == /\ WordPos(line, pos) \in 0..pos
          /\ \A i \in WordPos(line, pos) + 1 .. pos : line[i] \notin Separators
          /\ WordPos(line, pos) > 0 => \/ line[WordPos(line, pos)] \in Separators
                                       \/ pos < Len(line) /\ line[pos + 1] \in Separators
Bound == Len(line) <= 6
MCLines == {<<>>, <<97>>, <<97, 32, 98>>, <<32, 233, 46>>, <<233, 98, 99>>}
MCAnswers == {<<>>, <<<<98, 98>>>>, <<<<>>, <<19990, 32>>>>}
=============================================================================
