-------------------------------- MODULE Events -------------------------------
(* The source of terminal events (C08): a reader thread turns terminal reports *)
(* into shell events and queues them; the shell polls the queue, a poll (the   *)
(* iterator read until None) ends at the first moment nothing is pending.      *)
(* Key presses come from the terminal's byte stream, resizes from a signal:    *)
(* each of the two is in order; how they interleave is the terminal's choice.  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Keys, MaxLen
VARIABLES sent,     \* everything the user did, in order
          tty,      \* reports still in the terminal
          winch,    \* resizes still in the terminal
          queue,    \* the channel
          polling, batch,  \* the batch being read
          got       \* everything the shell got
vars == <<sent, tty, winch, queue, polling, batch, got>>
Mouse == "mouse"
Resize == "Resize"
Report == Keys \cup {Mouse, Resize}
IsKey(e) == e # Mouse /\ e # Resize
OnlyKeys(s) == SelectSeq(s, IsKey)
Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))

Init == sent = <<>> /\ tty = <<>> /\ winch = 0 /\ queue = <<>> /\ polling = FALSE /\ batch = <<>> /\ got = <<>>
Do(e) == /\ sent' = Append(sent, e)
         /\ IF e = Resize THEN winch' = winch + 1 /\ UNCHANGED tty ELSE tty' = Append(tty, e) /\ UNCHANGED winch
         /\ UNCHANGED <<queue, polling, batch, got>>
\* the reader thread: what is not a key press or a resize is skipped
ReadTty == /\ tty # <<>> /\ tty' = Tail(tty)
           /\ queue' = IF IsKey(Head(tty)) THEN Append(queue, Head(tty)) ELSE queue
           /\ UNCHANGED <<sent, winch, polling, batch, got>>
ReadWinch == /\ winch > 0 /\ winch' = winch - 1 /\ queue' = Append(queue, Resize)
             /\ UNCHANGED <<sent, tty, polling, batch, got>>
PollStart == ~polling /\ polling' = TRUE /\ batch' = <<>> /\ UNCHANGED <<sent, tty, winch, queue, got>>
PollSome == polling /\ queue # <<>> /\ batch' = Append(batch, Head(queue)) /\ queue' = Tail(queue)
            /\ UNCHANGED <<sent, tty, winch, polling, got>>
PollEnd == polling /\ queue = <<>> /\ polling' = FALSE /\ got' = got \o batch /\ batch' = <<>>
           /\ UNCHANGED <<sent, tty, winch, queue>>
Next == (\E e \in Report : Do(e)) \/ ReadTty \/ ReadWinch \/ PollStart \/ PollSome \/ PollEnd
Fair == WF_vars(ReadTty) /\ WF_vars(ReadWinch) /\ WF_vars(PollStart) /\ WF_vars(PollSome) /\ WF_vars(PollEnd)
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ Fair
Bound == Len(sent) <= MaxLen
BoundedDo == [][Len(sent') <= MaxLen]_vars
\* nothing lost, nothing invented, nothing reordered
Complete == OnlyKeys(got \o batch \o queue) \o OnlyKeys(tty) = OnlyKeys(sent)
Resizes == Count(got \o batch \o queue, Resize) + winch = Count(sent, Resize)
NoMouse == Count(got \o batch \o queue, Mouse) = 0
\* a poll always comes to its end, and what happened arrives in the end
PollEnds == polling ~> ~polling
Arrives == \A n \in 1..MaxLen : (Len(OnlyKeys(sent)) = n) ~> (Len(OnlyKeys(got)) >= n)
=============================================================================
