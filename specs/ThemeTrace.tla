------------------------------ MODULE ThemeTrace -----------------------------
EXTENDS Theme, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
In(e)  == [fg |-> e.fg, bg |-> e.bg, add |-> e.add, sub |-> e.sub]
Out(e) == [fg |-> e.ofg, bg |-> e.obg, add |-> e.oadd, sub |-> e.osub]
TInit == l = 1 /\ style = "none" /\ shown = "none"
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ E.ok
         /\ style' = In(E)
         /\ shown' = Themed(E.t, style') /\ shown' = Out(E)
TSpec == TInit /\ [][TNext]_<<style, shown, l>>
TView == l
Report == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
