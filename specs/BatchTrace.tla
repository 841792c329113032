----------------------------- MODULE BatchTrace -----------------------------
(* Recorded batches of the real code.
     begin {items, pool, par, ff, ts, is}   a batch, with the definitions it is given
     start {i}        item i is seen to have been begun
     rel {i, ok}      the waiting item i may go on
     rep {v}          a report of progress: the outcomes so far
     cancel           the batch has been cancelled (a moment ago)
     end {v, same}    the outcomes; are the caller's definitions what they were? *)
EXTENDS Batch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
MCKinds == <<>>
VARIABLES l, seen, will   \* will: the items that are going to be reported
tvars == <<vars, l, seen, will>>
E == Trace[l]
TInit == /\ items = <<>> /\ cfg = [pool |-> 1, par |-> FALSE, ff |-> FALSE] /\ st = <<>> /\ out = <<>> /\ let = <<>>
         /\ types = {} /\ impls = <<>> /\ failed = FALSE /\ cancelled = FALSE /\ closed = <<>> /\ l = 1 /\ seen = {} /\ will = {}
Set(q) == {q[j] : j \in 1..Len(q)}
Fun(q) == [x \in {q[j].n : j \in 1..Len(q)} |-> (CHOOSE y \in Set(q) : y.n = x).a]
Reported == [i \in 1..N |-> out'[i]]
Ev == /\ l <= Len(Trace) /\ l' = l + 1 /\ (E.e # "begin" => UNCHANGED will)
      /\ CASE E.e = "begin" -> /\ E.asked = <<E.par, E.ff>>
                               /\ BeginWith(E.items, [pool |-> E.pool, par |-> E.par, ff |-> E.ff], Set(E.ts), Fun(E.is))
                               /\ seen' = {} /\ will' = Set(E.will)
           [] E.e = "start" -> /\ E.i \in Exprs /\ st[E.i] = "R" /\ let[E.i] = "" /\ E.i \notin seen
                               /\ seen' = seen \cup {E.i} /\ UNCHANGED vars
           [] E.e = "rel" -> E.i \in seen /\ Release(E.i, E.ok) /\ UNCHANGED seen
           [] E.e = "rep" -> \E i \in 1..N : Finish(i) /\ Reported = E.v /\ UNCHANGED seen
           [] E.e = "cancel" -> (IF cancelled THEN UNCHANGED vars ELSE Cancel) /\ UNCHANGED seen
           [] E.e = "end" -> closed # <<>> /\ closed[1] = E.v /\ E.same /\ UNCHANGED <<vars, seen>>
           [] OTHER -> FALSE
(* Steps that can not be seen, taken only where they can make a difference: a start only of an item that
   will be reported, and only before something that needs it,
   a worker leaves at once unless it is the first to take notice of a failure (which may come late). *)
Quiet(i) == st[i] = "r" /\ (out[i] = "S" \/ failed \/ ~cfg.ff)
Prompt == \E i \in 1..N : Quiet(i)
Needs(i) == \/ E.e \in {"start", "rel"} /\ E.i = i
            \/ E.e = "rep" /\ E.v[i] # "O"
Hidden == /\ l <= Len(Trace) /\ UNCHANGED <<l, seen, will>>
          /\ IF Prompt THEN Leave(CHOOSE i \in 1..N : Quiet(i))
             ELSE \/ \E i \in 1..N : Leave(i)
                  \/ \E i \in will : (Needs(i) \/ E.e = "cancel" \/ (cfg.ff /\ \E j \in 1..N : out[j] = "F")) /\ Start(i)
                  \/ E.e \in {"end", "cancel"} /\ Close
TNext == (Ev /\ ~Prompt) \/ Hidden
TSpec == TInit /\ [][TNext]_tvars
Furthest == (l > TLCGet(1) => TLCSet(1, l))
ASSUME TLCSet(1, 0)
Report == PrintT(<<"TRACE", TLCGet(1) - 1, Len(Trace)>>)
=============================================================================
