----------------------------- MODULE SplitTrace -----------------------------
(* the real reader of files against Split *)
EXTENDS Split, IOUtils, Json
VARIABLE pos
T == ndJsonDeserialize(IOEnv.TRACE)
MCLen == 0
Judge(r) ==
    LET a == Split([i \in 1..Len(r.ls) |-> [r.ls[i] EXCEPT !.d = {@[j] : j \in 1..Len(@)}]])
    IN IF r.r = "panic" THEN "panic"
       ELSE IF a.odd THEN "any"
       ELSE IF a.bad THEN "refused"        \* or an expression in brackets, which has no value
       ELSE IF r.r = "err" THEN "wrongly-refused"
       ELSE IF r.items # Items(a, r.eol) THEN "wrong-items"
       ELSE IF r.par # ("no-parallelise" \notin a.dir) \/ r.ff # ("fail-fast" \in a.dir) THEN "wrong-directives"
       ELSE "ok"
Good == {"ok", "any", "refused"}
TInit == pos = 0 /\ ls = <<>> /\ s = Begin
TNext == /\ pos < Len(T)
         /\ LET v == Judge(T[pos + 1]) IN
              IF v \in Good THEN PrintT(<<"V", T[pos + 1].id, v>>)
              ELSE PrintT(<<"BAD", T[pos + 1].id, v, ToJson(Items(Split([i \in 1..Len(T[pos + 1].ls) |-> [T[pos + 1].ls[i] EXCEPT !.d = {}]]), T[pos + 1].eol))>>)
         /\ pos' = pos + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<pos, ls, s>>
Post == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
