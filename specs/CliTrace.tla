------------------------------- MODULE CliTrace ------------------------------
EXTENDS Cli, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ argv = <<>> /\ st = Start
\* with a help option among the arguments only this much is promised: it is not taken as a run
HasHelp == \E i \in 1..Len(E.argv) : E.argv[i] = LHelp \/ (Len(E.argv[i]) > 1 /\ E.argv[i][1] = Dash /\ E.argv[i][2] # Dash
                                        /\ \E k \in 2..Len(E.argv[i]) : E.argv[i][k] = 104)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ argv' = E.argv
         /\ st' = ReadAll(Start, E.argv)
         /\ CASE Result(st') = "ok" -> /\ E.res = "ok"
                                       /\ E.quiet = (st'.quiet = 1) /\ E.def = st'.def
                                       /\ E.hasdef = (st'.def # <<>>) /\ E.files = st'.files
              [] Result(st') = "error" -> E.res = "error" \/ (E.res = "help" /\ HasHelp)
              [] Result(st') = "help" -> E.res = "help" \/ (E.res = "error" /\ Len(E.argv) > 1)
TSpec == TInit /\ [][TNext]_<<argv, st, l>>
TView == l
Report == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
