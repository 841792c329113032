------------------------------ MODULE InputLine ------------------------------
(* The input line of the shell: C01 (editing) and C02 (cursor).              *)
EXTENDS LineOps, TLC
MCTexts == {<<>>, <<97, 32>>, <<233, 45, 46>>}
CONSTANTS Alphabet,   \* characters that can be typed
          MaxLen,     \* bound on the line (exploration only)
          Steps,      \* step sizes of a move by characters
          Texts       \* strings inserted at once
VARIABLES buf, pos, chg,
          act         \* last action with its argument (history variable; hidden by VIEW)
vars == <<buf, pos, chg>>

Init == buf = <<>> /\ pos = 0 /\ chg = FALSE /\ act = <<"new", <<>>>>

InsertStr(t) == /\ buf' = InsertAt(buf, pos, t)
                /\ pos' = pos + Len(t)
                /\ chg' = (chg \/ t # <<>>)
Backspace == IF pos > 0
             THEN buf' = RemoveAt(buf, pos) /\ pos' = pos - 1 /\ chg' = TRUE
             ELSE UNCHANGED vars
Delete == IF pos < Len(buf)
          THEN buf' = RemoveAt(buf, pos + 1) /\ pos' = pos /\ chg' = TRUE
          ELSE UNCHANGED vars
\* clearing an empty line may or may not count as a change
Clear == /\ buf' = <<>> /\ pos' = 0
         /\ IF buf = <<>> THEN chg' \in {chg, TRUE} ELSE chg' = TRUE
Move(p) == pos' = p /\ UNCHANGED <<buf, chg>>
MoveStart == Move(0)
MoveLeft(n) == Move(IF n >= pos THEN 0 ELSE pos - n)
MoveRight(n) == Move(IF n >= Len(buf) - pos THEN Len(buf) ELSE pos + n)
WordLeft == Move(pos - WordStep(Rev(Pre(buf, pos))))
WordRight == Move(pos + WordStep(Post(buf, pos)))
ResetChanged == chg' = FALSE /\ UNCHANGED <<buf, pos>>

Next == \/ \E c \in Alphabet : Len(buf) < MaxLen /\ InsertStr(<<c>>) /\ act' = <<"ins", <<c>>>>
        \/ \E t \in Texts : Len(buf) + Len(t) <= MaxLen /\ InsertStr(t) /\ act' = <<"str", t>>
        \/ Backspace /\ act' = <<"bs", <<>>>>
        \/ Delete /\ act' = <<"del", <<>>>>
        \/ Clear /\ act' = <<"clear", <<>>>>
        \/ MoveStart /\ act' = <<"ms", <<>>>>
        \/ \E n \in Steps : MoveLeft(n) /\ act' = <<"ml", <<n>>>>
        \/ \E n \in Steps : MoveRight(n) /\ act' = <<"mr", <<n>>>>
        \/ WordLeft /\ act' = <<"wl", <<>>>>
        \/ WordRight /\ act' = <<"wr", <<>>>>
        \/ ResetChanged /\ act' = <<"rc", <<>>>>
Spec == Init /\ [][Next]_<<vars, act>>
View == vars

-----------------------------------------------------------------------------
TypeOK == pos \in 0..Len(buf) /\ \A i \in 1..Len(buf) : buf[i] \in Alphabet
\* C02: the byte position is a boundary and counts exactly the text before the cursor
BytePos == BytesOf(Pre(buf, pos)) + BytesOf(Post(buf, pos)) = BytesOf(buf)

Name == act'[1]
\* C01: everything before and after the edit survives, in order
EditExact == [][
    /\ Name \in {"ins", "str"} => /\ Pre(buf', pos) = Pre(buf, pos)
                                  /\ Post(buf', pos') = Post(buf, pos)
                                  /\ SubSeq(buf', pos + 1, pos') = act'[2]
    /\ Name = "bs" => Post(buf', pos') = Post(buf, pos) /\ pos' = Max2(0, pos - 1)
                      /\ Pre(buf', pos') = Pre(buf, pos')
    /\ Name = "del" => pos' = pos /\ Pre(buf', pos') = Pre(buf, pos)
                       /\ Post(buf', pos') = Post(buf, Min2(Len(buf), pos + 1))
    ]_<<vars, act>>
\* C01: the changed mark
ChangeMark == [][Name # "new" => (buf' # buf => chg') /\ (chg' /\ ~chg => Name \in {"ins", "str", "bs", "del", "clear"})]_<<vars, act>>
\* C02: moves never alter the text
MovesKeepText == [][(Name \in {"ms", "ml", "mr", "wl", "wr", "rc"}) => buf' = buf]_<<vars, act>>
\* C02: word movement, said without the recursion: the stretch passed is non-word* word*, it is
\* maximal, and it is empty only at the end of the line
WordStretch(s, full) ==
    \E k \in 0..Len(s) :
        /\ \A i \in 1..k : ~IsWord(s[i])
        /\ \A i \in k+1..Len(s) : IsWord(s[i])
        /\ \/ Len(s) = Len(full)                               \* end of the line
           \/ (k < Len(s) /\ ~IsWord(full[Len(s) + 1]))         \* stopped after a word
WordMoves == [][
    /\ Name = "wr" => WordStretch(SubSeq(buf, pos + 1, pos'), Post(buf, pos))
    /\ Name = "wl" => WordStretch(Rev(SubSeq(buf, pos' + 1, pos)), Rev(Pre(buf, pos)))
    ]_<<vars, act>>
=============================================================================
