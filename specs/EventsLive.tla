------------------------------ MODULE EventsLive -----------------------------
EXTENDS Events
\* the user stops after MaxLen reports
LNext == (Len(sent) < MaxLen /\ \E e \in Report : Do(e)) \/ ReadTty \/ ReadWinch \/ PollStart \/ PollSome \/ PollEnd
LSpec == Init /\ [][LNext]_vars /\ Fair
=============================================================================
