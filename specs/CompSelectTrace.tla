--------------------------- MODULE CompSelectTrace ---------------------------
EXTENDS CompSelect, Json, IOUtils
CONSTANTS Judge     \* "C05": selection and replacement; "C07": what the sources are asked
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
TInit == Init /\ l = 1
\* a place in a line, where the shell would put a replacement of E.len characters
Asked(s) == LET c == E.calls[s] IN
            /\ c.src = s - 1 /\ c.input = AskedInput /\ c.cursor = AskedCursor /\ c.word = AskedWord
Offered == E.items = items' /\ E.has = (items' # <<>>) /\ E.hl = hl'
OnScreen == E.line = line' /\ E.pos = pos'
Walk == /\ ((E.op = "next" /\ SelNext) \/ (E.op = "prev" /\ SelPrev))
        /\ E.with = put' /\ E.len = Len(put) /\ E.wpos = WStart
Step == CASE E.op = "new" -> /\ line' = <<>> /\ pos' = 0 /\ live' = FALSE /\ typed' = <<<<>>, 0>>
                             /\ items' = <<>> /\ hl' = 0 /\ put' = <<>>
          [] E.op = "line" -> SetLine(E.arg[1], E.arg[2]) /\ OnScreen
          [] E.op = "req" -> /\ Request /\ OnScreen /\ Offered
                             /\ Judge = "C07" => Len(E.calls) = 2 /\ Asked(1) /\ Asked(2)
                             /\ E.wpos = WordPos(line, pos)
          [] E.op = "ans" -> Answer(E.arg) /\ OnScreen /\ Offered
          [] E.op \in {"next", "prev"} ->
                 IF items = <<>> THEN UNCHANGED vars ELSE Walk /\ OnScreen /\ Offered
          [] E.op = "reset" -> Reset /\ OnScreen /\ Offered
TNext == l <= Len(Trace) /\ l' = l + 1 /\ E.ok /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
Report == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
