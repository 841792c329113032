------------------------------ MODULE EventsTrace ----------------------------
(* The recorded interaction of the real event source with a pseudo terminal.   *)
(*   new              a fresh terminal and event source                        *)
(*   do {evs}         the terminal is given these reports                      *)
(*   poll {ok, got}   one poll; ok: it answered in time                        *)
(*   drained          polls have been repeated until nothing came for long     *)
(* The reader thread's steps are not recorded: a poll may return any           *)
(* interleaving of a prefix of the pending keys and some of the resizes.       *)
EXTENDS Events, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
E == Trace[l]
TInit == Init /\ l = 1
IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
NResize(s) == Count(s, Resize)
Fresh == tty' = <<>> /\ winch' = 0
Give == /\ tty' = tty \o SelectSeq(E.evs, LAMBDA e : e # Resize) /\ winch' = winch + NResize(E.evs)
\* mouse reports at the front are read away together with what follows them
Poll == /\ E.ok
        /\ IsPrefix(OnlyKeys(E.got), OnlyKeys(tty))
        /\ OnlyKeys(E.got) \o SelectSeq(E.got, LAMBDA e : e = Resize) # <<>> \/ E.got = <<>>
        /\ Count(E.got, Mouse) = 0
        /\ NResize(E.got) <= winch
        /\ tty' = SubSeq(OnlyKeys(tty), Len(OnlyKeys(E.got)) + 1, Len(OnlyKeys(tty)))
        /\ winch' = winch - NResize(E.got)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ CASE E.op = "new" -> Fresh
              [] E.op = "do" -> Give
              [] E.op = "poll" -> Poll
              [] E.op = "drained" -> OnlyKeys(tty) = <<>> /\ winch = 0 /\ UNCHANGED <<tty, winch>>
         /\ UNCHANGED <<sent, queue, polling, batch, got>>
TSpec == TInit /\ [][TNext]_tvars
TView == <<tty, winch, l>>
TReport == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
