------------------------------- MODULE History -------------------------------
(* The command history of the shell (C03). Lines are numbers, 0 is "nothing". *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Limit,    \* how many lines are kept
          Lines     \* lines that can be entered (exploration)
VARIABLES items,    \* the lines kept, oldest first
          at,       \* position offered, 0 = resting
          entered,  \* every line ever entered (history variable, exploration only)
          act
vars == <<items, at>>
Init == items = <<>> /\ at = 0 /\ entered = <<>> /\ act = <<"new", 0>>

Keep(s) == IF Len(s) > Limit THEN SubSeq(s, Len(s) - Limit + 1, Len(s)) ELSE s
Add(x) == items' = Keep(Append(items, x)) /\ at' = 0
Back   == at' = (IF at = 0 THEN Len(items) ELSE at - 1) /\ UNCHANGED items
Fwd    == at' = (IF at = Len(items) THEN 0 ELSE at + 1) /\ UNCHANGED items
Current == IF at = 0 THEN 0 ELSE items[at]

Next == \/ \E x \in Lines : Add(x) /\ entered' = Append(entered, x) /\ act' = <<"add", x>>
        \/ Back /\ UNCHANGED entered /\ act' = <<"back", 0>>
        \/ Fwd  /\ UNCHANGED entered /\ act' = <<"fwd", 0>>
Spec == Init /\ [][Next]_<<vars, entered, act>>
View == <<vars, entered>>
-----------------------------------------------------------------------------
TypeOK == at \in 0..Len(items) /\ Len(items) <= Limit
\* exactly the most recent lines, in entry order
MostRecent == items = Keep(entered)
\* navigation is a cycle over the resting position and the lines; back and forward are inverse
BackOf(p) == IF p = 0 THEN Len(items) ELSE p - 1
FwdOf(p)  == IF p = Len(items) THEN 0 ELSE p + 1
Inverse == \A p \in 0..Len(items) : FwdOf(BackOf(p)) = p /\ BackOf(FwdOf(p)) = p
RECURSIVE Go(_, _)
Go(n, p) == IF n = 0 THEN p ELSE Go(n - 1, BackOf(p))
\* from rest, the k-th step back offers the k-th newest line and one more than all of them is rest
Newest == /\ \A k \in 1..Len(items) : items[Go(k, 0)] = entered[Len(entered) - k + 1]
          /\ Go(Len(items) + 1, 0) = 0
AddRests == [][act'[1] = "add" => at' = 0]_<<vars, entered, act>>
Bound == Len(entered) <= 6
=============================================================================
