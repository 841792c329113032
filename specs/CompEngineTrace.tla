--------------------------- MODULE CompEngineTrace ---------------------------
(* Is a recorded schedule of the real completion engine a behaviour of        *)
(* CompEngine? The dispatcher, the sending of answers and the moment a receive *)
(* empties the channel are not visible: TLC finds where they happened.         *)
EXTENDS CompEngine, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, text, at
tvars == <<vars, l, n, text, at>>
E == Trace[l]
TInit == Init /\ l = 1 /\ n = 0 /\ text = <<>> /\ at = 0
NoText == UNCHANGED <<n, text, at>>
Shown == items' = E.items /\ E.hasitems = (items' # <<>>) /\ hl' = E.hl
LastAskedOf(s) == last > 0 => (calls[s] # <<>> /\ calls[s][Len(calls[s])] = last)
Waiting(s, r) == CHOOSE i \in 0..Len(srcQ[s]) : IF \E j \in 1..Len(srcQ[s]) : srcQ[s][j] = r
                                               THEN i > 0 /\ srcQ[s][i] = r ELSE i = 0
Of(s) == Len(SelectSeq(items, LAMBDA x : x[2] = s))
Ev == /\ l <= Len(Trace) /\ l' = l + 1
      /\ CASE E.op = "new" ->
                /\ cur' = 0 /\ last' = 0 /\ reqQ' = <<>> /\ chan' = <<>> /\ items' = <<>> /\ hl' = 0
                /\ srcQ' = [s \in Src |-> <<>>] /\ busy' = [s \in Src |-> 0]
                /\ ready' = [s \in Src |-> <<>>] /\ calls' = [s \in Src |-> <<>>]
                /\ rx' = "no" /\ got' = FALSE /\ n' = E.srcs /\ text' = <<>> /\ at' = 0
           \* the request and its way through the dispatcher in one step: since threads may leave out
           \* superseded requests, neither when it was forwarded nor whether makes a difference
           [] E.op = "req" -> /\ rx = "no" /\ E.req > last
                              /\ last' = E.req /\ cur' = E.req /\ items' = <<>> /\ hl' = 0
                              /\ srcQ' = [s \in Src |-> IF s <= n THEN Append(srcQ[s], E.req) ELSE <<>>]
                              /\ UNCHANGED <<reqQ, busy, ready, chan, rx, got, calls>>
                              /\ text' = E.input /\ at' = E.pos /\ UNCHANGED n
           [] E.op = "reqd" -> E.ok /\ Shown /\ UNCHANGED vars /\ NoText
           [] E.op = "reset" -> Dismiss /\ Shown /\ NoText
           [] E.op = "recvb" -> RecvBegin /\ NoText
           [] E.op = "recv" -> RecvEnd /\ Shown /\ E.has = got /\ NoText
           [] E.op = "next" -> SelNext /\ Shown /\ NoText
           [] E.op = "prev" -> SelPrev /\ Shown /\ NoText
           [] E.op = "call" -> StartAt(E.src, Waiting(E.src, E.req)) /\ NoText
                               /\ (E.req = last => E.input = text)
           [] E.op = "ret" -> busy[E.src] = E.req /\ Return(E.src, E.n) /\ NoText
           \* one source has been served, whatever the others do
           [] E.op = "settled" -> /\ Shown /\ UNCHANGED vars /\ NoText
                                  /\ LastAskedOf(E.src) /\ busy[E.src] = 0 /\ ready[E.src] = <<>>
                                  /\ Of(E.src) = (IF E.n > Lim THEN Lim ELSE E.n)
           [] E.op = "drained" -> /\ AtRest /\ Shown /\ UNCHANGED vars /\ NoText
                                  /\ \A p \in 1..Len(chan) : ~IsCurrent(chan[p])
                                  /\ \A s \in 1..n : LastAskedOf(s)
\* Hidden steps. To keep the search small each is taken only where it can make a difference:
\* - an answer to a request that is no longer current never shows, so it is sent at once;
\* - other answers are sent, and the channel emptied, only just before a step that depends on it.
Keep3 == UNCHANGED <<l, n, text, at>>
Stale(s) == ready[s] # <<>> /\ ready[s][1] # cur
Urgent == \E s \in Src : Stale(s)
FirstStale == CHOOSE s \in Src : Stale(s) /\ \A t \in Src : Stale(t) => s <= t
NextCallWaits == E.op = "call" /\ ready[E.src] # <<>>
Hidden == /\ l <= Len(Trace) /\ Keep3
          /\ IF Urgent THEN Send(FirstStale)
             ELSE \/ Drain /\ (E.op = "recv" \/ NextCallWaits)
                  \/ \E s \in Src : Send(s) /\ (E.op \in {"recv", "drained"} \/ NextCallWaits)
TNext == (Ev /\ ~Urgent) \/ Hidden
TSpec == TInit /\ [][TNext]_tvars
Furthest == (l > TLCGet(1) => TLCSet(1, l))
ASSUME TLCSet(1, 0)
Report == PrintT(<<"TRACE", TLCGet(1) - 1, Len(Trace)>>)
=============================================================================
