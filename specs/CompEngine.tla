----------------------------- MODULE CompEngine ------------------------------
(* The completion engine of the shell (C04, C06): a client that requests,     *)
(* receives and dismisses; a dispatcher thread that drops superseded requests;*)
(* one thread per source. One action per step that can interleave.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Src,        \* the sources, 1..n
          Lim,        \* items kept of one answer
          MaxReq,     \* bound on requests (exploration)
          Sizes,      \* how many items a source may return
          Fair        \* sources that always return eventually (liveness)
VARIABLES cur,        \* the request whose suggestions may be shown, 0 = dismissed / none yet
          last,       \* number of the last request
          reqQ,       \* requests on their way to the dispatcher
          srcQ,       \* per source: requests handed to its thread
          busy,       \* per source: request it is working on, 0 = none
          ready,      \* per source: answer not yet sent, <<>> = none
          chan,       \* answers on their way to the client
          items,      \* suggestions on offer: <<request, source, k>>
          hl,         \* selected suggestion, 0 = none
          rx,         \* the client is inside a receive: "no", "begun", "drained"
          got,        \* result of that receive
          calls       \* per source: the requests it was asked (history variable)
evars == <<cur, last, reqQ, srcQ, busy, ready, chan, items, hl, rx, got>>
vars == <<evars, calls>>

Init == /\ cur = 0 /\ last = 0 /\ reqQ = <<>> /\ chan = <<>> /\ items = <<>> /\ hl = 0
        /\ srcQ = [s \in Src |-> <<>>] /\ busy = [s \in Src |-> 0] /\ ready = [s \in Src |-> <<>>]
        /\ calls = [s \in Src |-> <<>>] /\ rx = "no" /\ got = FALSE

\* --- client
Request(r) == /\ rx = "no" /\ r > last
              /\ last' = r /\ cur' = r /\ items' = <<>> /\ hl' = 0
              /\ reqQ' = Append(reqQ, r)
              /\ UNCHANGED <<srcQ, busy, ready, chan, rx, got, calls>>
Dismiss == /\ rx = "no" /\ cur' = 0 /\ items' = <<>> /\ hl' = 0
           /\ UNCHANGED <<last, reqQ, srcQ, busy, ready, chan, rx, got, calls>>
RecvBegin == /\ rx = "no" /\ rx' = "begun"
             /\ UNCHANGED <<cur, last, reqQ, srcQ, busy, ready, chan, items, hl, got, calls>>
RECURSIVE Expand(_)
Expand(ps) == IF ps = <<>> THEN <<>>
              ELSE [k \in 1..ps[1][3] |-> <<ps[1][1], ps[1][2], k>>] \o Expand(Tail(ps))
IsCurrent(p) == p[1] = cur
Drain == /\ rx = "begun" /\ rx' = "drained"
         /\ LET now == SelectSeq(chan, IsCurrent)
            IN  items' = items \o Expand(now) /\ got' = (now # <<>>)
         /\ chan' = <<>>
         /\ UNCHANGED <<cur, last, reqQ, srcQ, busy, ready, hl, calls>>
RecvEnd == /\ rx = "drained" /\ rx' = "no" /\ got' = FALSE
           /\ UNCHANGED <<cur, last, reqQ, srcQ, busy, ready, chan, items, hl, calls>>
Select(h) == /\ rx = "no" /\ items # <<>> /\ hl' = h
             /\ UNCHANGED <<cur, last, reqQ, srcQ, busy, ready, chan, items, rx, got, calls>>
SelNext == Select(IF hl = Len(items) THEN 0 ELSE hl + 1)
SelPrev == Select(IF hl = 0 THEN Len(items) ELSE hl - 1)

\* --- dispatcher: forwards a request; it may drop it when a newer one is already waiting
Dispatch == /\ reqQ # <<>>
            /\ reqQ' = Tail(reqQ)
            /\ \/ srcQ' = [s \in Src |-> Append(srcQ[s], reqQ[1])]
               \/ Tail(reqQ) # <<>> /\ UNCHANGED srcQ
            /\ UNCHANGED <<cur, last, busy, ready, chan, items, hl, rx, got, calls>>

\* --- source threads: take up a waiting request; they may leave out superseded ones
StartAt(s, i) ==
            /\ busy[s] = 0 /\ ready[s] = <<>> /\ i \in 1..Len(srcQ[s])
            /\ busy' = [busy EXCEPT ![s] = srcQ[s][i]]
            /\ srcQ' = [srcQ EXCEPT ![s] = SubSeq(@, i + 1, Len(@))]
            /\ calls' = [calls EXCEPT ![s] = Append(@, srcQ[s][i])]
            /\ UNCHANGED <<cur, last, reqQ, ready, chan, items, hl, rx, got>>
Start(s) == \E i \in 1..Len(srcQ[s]) : StartAt(s, i)
Return(s, n) == /\ busy[s] # 0
                /\ busy' = [busy EXCEPT ![s] = 0]
                /\ ready' = [ready EXCEPT ![s] =
                     IF n = 0 THEN <<>> ELSE <<busy[s], s, IF n > Lim THEN Lim ELSE n>>]
                /\ UNCHANGED <<cur, last, reqQ, srcQ, chan, items, hl, rx, got, calls>>
Send(s) == /\ ready[s] # <<>>
           /\ chan' = Append(chan, ready[s])
           /\ ready' = [ready EXCEPT ![s] = <<>>]
           /\ UNCHANGED <<cur, last, reqQ, srcQ, busy, items, hl, rx, got, calls>>

Next == \/ last < MaxReq /\ Request(last + 1)
        \/ Dismiss \/ RecvBegin \/ Drain \/ RecvEnd \/ SelNext
        \/ Dispatch
        \/ \E s \in Src : Start(s) \/ Send(s) \/ \E n \in Sizes : Return(s, n)
Fairness == /\ WF_vars(Dispatch) /\ WF_vars(Drain) /\ WF_vars(RecvEnd) /\ SF_vars(RecvBegin)
            /\ \A s \in Src : WF_vars(Start(s)) /\ WF_vars(Send(s))
            /\ \A s \in Fair : WF_vars(\E n \in Sizes : Return(s, n))
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ Fairness
-----------------------------------------------------------------------------
AtRest == /\ reqQ = <<>> /\ rx = "no"
          /\ \A s \in Src : srcQ[s] = <<>> /\ busy[s] = 0 /\ ready[s] = <<>>
Increasing(q) == \A i \in 1..Len(q), j \in 1..Len(q) : i < j => q[i] < q[j]
TypeOK == hl \in 0..Len(items) /\ cur \in {0, last}
\* C04: only the current request's suggestions are ever on offer
Fresh == \A i \in 1..Len(items) : items[i][1] = cur /\ cur # 0
\* C04: a request or a dismissal clears at once
Clears == [][(cur' # cur) => items' = <<>> /\ hl' = 0]_vars
\* C06: nothing twice, at most Lim of each source, in the source's order
Once == \A i \in 1..Len(items), j \in 1..Len(items) : i < j => items[i] # items[j]
Few  == \A s \in Src : Cardinality({i \in 1..Len(items) : items[i][2] = s}) <= Lim
Ordered == \A i \in 1..Len(items), j \in 1..Len(items) :
             (i < j /\ items[i][2] = items[j][2]) => items[i][3] < items[j][3]
\* C06: no source is asked the same request twice, or an older one after a newer one
AskedForward == \A s \in Src : Increasing(calls[s] \o srcQ[s])
\* C06: when nothing is in flight every source has been asked about the last request
LastAsked == (AtRest /\ last > 0) =>
                 \A s \in Src : calls[s] # <<>> /\ calls[s][Len(calls[s])] = last
\* C06 (liveness): requests stop (MaxReq), so eventually every source that returns has been asked
\* about the last request and nothing of its answer is held back
Asked(s) == last > 0 => (calls[s] # <<>> /\ calls[s][Len(calls[s])] = last)
Idle(s)  == srcQ[s] = <<>> /\ busy[s] = 0 /\ ready[s] = <<>>
            /\ \A i \in 1..Len(chan) : ~(chan[i][2] = s /\ chan[i][1] = cur)
EventuallyAnswered == \A s \in Fair : <>[](last = MaxReq => Asked(s) /\ srcQ[s] = <<>> /\ busy[s] = 0 /\ ready[s] = <<>>)
EventuallyReceived == \A s \in Fair : []<>(last = MaxReq => Idle(s))
=============================================================================
