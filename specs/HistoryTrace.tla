---------------------------- MODULE HistoryTrace -----------------------------
EXTENDS History, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == Init /\ l = 1
E == Trace[l]
Step == CASE E.op = "new"  -> items' = <<>> /\ at' = 0
          [] E.op = "add"  -> Add(E.arg)
          [] E.op = "back" -> Back
          [] E.op = "fwd"  -> Fwd
Observed == E.ok /\ E.cur = (IF at' = 0 THEN 0 ELSE items'[at'])
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ Observed
         /\ act' = <<E.op, E.arg>> /\ UNCHANGED entered
TSpec == TInit /\ [][TNext]_<<vars, entered, act, l>>
TView == <<vars, l>>
Report == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
