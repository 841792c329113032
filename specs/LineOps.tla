------------------------------- MODULE LineOps -------------------------------
(* Pure operators on a line of text and a cursor. A character is its Unicode *)
(* code point; a line is a sequence of them; the cursor is the number of     *)
(* characters before it. Shared by every specification of the shell.         *)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* non-ASCII alphanumerics used by the conformance drivers:  e-acute, sharp s, superscript two,
\* CJK, arabic digit three, capital alpha, hiragana, deseret long i (4 bytes)
UniAlnum == {233, 223, 178, 19990, 1635, 913, 945, 946, 947, 955, 12354, 66560}

IsWord(c) == \/ c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
             \/ c = 45 \/ c = 95 \/ c \in UniAlnum
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE BytesOf(_)
BytesOf(s) == IF s = <<>> THEN 0 ELSE Utf8Len(s[1]) + BytesOf(Tail(s))
\* the same as a fold over a known prefix, for long lines
Pre(s, n)  == SubSeq(s, 1, n)
Post(s, n) == SubSeq(s, n + 1, Len(s))

InsertAt(s, p, t) == Pre(s, p) \o t \o Post(s, p)
RemoveAt(s, i)    == Pre(s, i - 1) \o Post(s, i)     \* drops the i-th character

\* how far a word movement goes over s (already oriented in the direction of travel):
\* the characters that are not word characters, then the run of word characters
RECURSIVE Run(_, _, _)
Run(s, i, word) == IF i < Len(s) /\ (IsWord(s[i + 1]) = word) THEN Run(s, i + 1, word) ELSE i
WordStep(s) == Run(s, Run(s, 0, FALSE), TRUE)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* separators that start a new word for completion: space tab newline return . / \
Separators == {32, 9, 10, 13, 46, 47, 92}
\* Characters before the start of the word in front of the cursor: the place after the last separator
\* before the cursor. Directly in front of a separator there is no word to complete: it is the cursor.
LastSep(s, p) == LET seps == {i \in 1..p : s[i] \in Separators}
                 IN  IF seps = {} THEN 0 ELSE CHOOSE i \in seps : \A j \in seps : j <= i
WordPos(s, p) == IF p < Len(s) /\ s[p + 1] \in Separators THEN p ELSE LastSep(s, p)
=============================================================================
