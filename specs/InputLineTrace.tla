--------------------------- MODULE InputLineTrace ----------------------------
(* Is a recorded history of the real input line a behaviour of InputLine?    *)
EXTENDS InputLine, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, act, l>>
TInit == Init /\ l = 1
E == Trace[l]
CONSTANTS Judge   \* "C01": text and edits, "C02": cursor and moves
EditOps == {"new", "ins", "str", "bs", "del", "clear"}
\* What the accessors report after the step. Each property judges its own part of it; on the other's part
\* the specification follows what was observed, so that a defect is reported by the property it breaks.
Text == E.buf = buf' /\ E.chars = buf' /\ E.pre = Pre(buf', pos') /\ E.post = Post(buf', pos')
Observed == /\ E.ok
            /\ E.pos = pos'
            /\ Text
            /\ Judge = "C01" => E.chg = chg'
            /\ Judge = "C02" => E.bpos = BytesOf(Pre(buf', pos'))
\* the other property's steps: taken over as observed
Follow == IF E.ok THEN buf' = E.buf /\ pos' = E.pos /\ chg' = E.chg /\ 0 <= E.pos /\ E.pos <= Len(E.buf)
          ELSE buf' = <<>> /\ pos' = 0 /\ chg' = FALSE   \* it crashed; the driver takes a new one
Step == CASE E.op = "new"   -> buf' = <<>> /\ pos' = 0 /\ chg' = FALSE
          [] E.op \in {"ins", "str"} -> InsertStr(E.arg)
          [] E.op = "bs"    -> Backspace
          [] E.op = "del"   -> Delete
          [] E.op = "clear" -> Clear
          [] E.op = "ms"    -> MoveStart
          [] E.op = "ml"    -> MoveLeft(E.arg[1])
          [] E.op = "mr"    -> MoveRight(E.arg[1])
          [] E.op = "wl"    -> WordLeft
          [] E.op = "wr"    -> WordRight
          [] E.op = "rc"    -> ResetChanged
Mine == IF Judge = "C01" THEN E.op \in EditOps \cup {"rc"} ELSE E.op \notin EditOps \ {"new"}
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ act' = <<E.op, E.arg>>
         /\ IF Mine THEN Step /\ Observed
            ELSE Follow /\ (Judge = "C02" /\ E.ok => E.bpos = BytesOf(Pre(buf', pos')))
TSpec == TInit /\ [][TNext]_tvars
\* the invariant and the action properties are checked on the recorded history as well
TView == <<vars, l>>
Report == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
