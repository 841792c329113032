------------------------------ MODULE DefsTrace ------------------------------
EXTENDS Defs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
\* the first event lists the built-in commands and what some expressions using them give
TraceBi == {<<k[1], k[2]>> : k \in RangeOf(Trace[1].keys)}
Fresh(e) == e.bi = Trace[1].bi

Step == CASE E.op = "new" -> im' = Empty /\ ty' = Empty /\ ok' = TRUE /\ op' = [op |-> "new"]
          [] E.op = "def" -> Do([op |-> E.op], Def(st, E.d))
          [] E.op = "ty" -> Do([op |-> E.op], DefTy(st, E.d))
          [] E.op = "load" -> Do([op |-> E.op], Load(st, E.xs))
          [] E.op = "clear" -> Do([op |-> E.op], Clear(st, E.files))
          [] OTHER -> UNCHANGED vars /\ ok' = TRUE /\ op' = [op |-> E.op]

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Row(k) == LET r == im[k] IN [n |-> k[1], t |-> k[2], loc |-> r.loc, line |-> r.line, code |-> r.src,
                             cat |-> IF r.w = "def" THEN "user-defined" ELSE "init"]
Listed == /\ Fresh(E)
          /\ {[n |-> x.n, t |-> x.t, loc |-> x.loc, line |-> x.line, code |-> x.code, cat |-> x.cat] : x \in RangeOf(E.rows)}
               = {Row(k) : k \in DOMAIN im}
          /\ Len(E.rows) = Cardinality(DOMAIN im)
          /\ \A i \in 1..(Len(E.rows) - 1) :
               \/ Less(E.rows[i].nc, E.rows[i + 1].nc)
               \/ E.rows[i].nc = E.rows[i + 1].nc /\ Less(E.rows[i].tc, E.rows[i + 1].tc)
Observed ==
    CASE E.op = "new" -> Fresh(E)
      [] E.op \in {"def", "ty", "load", "clear"} -> E.r = IF ok' THEN "ok" ELSE "err"
      [] E.op = "list" -> Listed
      [] E.op = "call" -> LET v == Call(st, E.b, E.in)
                          IN IF v = Bad THEN E.r = "err" /\ E.stage \in {"parse", "compile"}
                             ELSE v.t = "?" \/ (E.r = "ok" /\ E.v = v)
      [] E.op = "probe" -> \/ E.res = Trace[1].probes[E.i]
                           \/ \E k \in Keys(st) : k[2] # "" /\ <<k[1], "">> \in Bi     \* for its type, before the built-in for any
TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ Observed
TSpec == TInit /\ [][TNext]_<<vars, op, ok, l>>
TView == <<vars, l>>
Report == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
