------------------------------- MODULE Batch -------------------------------
(* A batch of items: type definitions, implementations and expressions. The definitions are processed one after the
   other, then the expressions, by up to `pool` workers at a time (one, if the batch is not parallel, and then in
   order). An item is
     [k |-> "ty", n, need]     defines type n out of the types `need`
     [k |-> "im", n, a]        defines the command n of a arguments
     [k |-> "ex", op, n, a]    an expression: "ok" has a value, "no" fails, "bad" can not be read, "call" calls the
                               command n with a arguments, "con" makes a value of type n, "wait" waits until somebody
                               lets it go on, well or badly.
   Neither starting an item nor the moment a failure is taken notice of can be seen. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES items,        \* the batch
          cfg,          \* [pool, par, ff]
          st,           \* of each item: "O" not begun, "R" running, "r" reported but its worker not yet free, "S", "F"
          out,          \* of each item that was reported: its outcome, or "O"
          types, impls, \* the definitions as they are now
          failed, cancelled,
          let,          \* how a waiting item may go on: "", "ok", "no"
          closed        \* nothing is begun any more: <<>> or the outcomes
vars == <<items, cfg, st, out, types, impls, failed, cancelled, let, closed>>

N == Len(items)
IsDef(i) == items[i].k # "ex"
Exprs == {i \in 1..N : ~IsDef(i)}
Built == {"ls", "let", "get"}
Stop == cancelled \/ (cfg.ff /\ failed)
Done(i) == st[i] \in {"S", "F"}
Defined == \A i \in 1..N : IsDef(i) => Done(i)

BeginWith(its, c, ts, is) ==
    /\ items' = its /\ cfg' = c /\ types' = ts /\ impls' = is
    /\ st' = [i \in 1..Len(its) |-> "O"] /\ out' = [i \in 1..Len(its) |-> "O"] /\ let' = [i \in 1..Len(its) |-> ""]
    /\ failed' = FALSE /\ cancelled' = FALSE /\ closed' = <<>>

Fits(x) == IF x.k = "ty" THEN x.n \notin types /\ \A j \in 1..Len(x.need) : x.need[j] \in types
           ELSE x.n \notin Built
Result(i) == LET x == items[i] IN
    IF x.k # "ex" THEN Fits(x)
    ELSE CASE x.op = "ok" -> TRUE
           [] x.op = "call" -> x.n \in DOMAIN impls /\ impls[x.n] = x.a
           [] x.op = "con" -> x.n \in types
           [] x.op = "wait" -> let[i] = "ok"
           [] OTHER -> FALSE
Mark(i, r) == out' = [out EXCEPT ![i] = IF r THEN "S" ELSE "F"]

Busy == Cardinality({i \in 1..N : st[i] \in {"R", "r"}})
Start(i) ==
    /\ closed = <<>> /\ ~Stop
    /\ st[i] = "O"
    /\ IF IsDef(i) THEN \A j \in 1..(i - 1) : IsDef(j) => Done(j)
       ELSE /\ Defined
            /\ Busy < (IF cfg.par THEN cfg.pool ELSE 1)
            /\ ~cfg.par => \A j \in Exprs : j < i => st[j] # "O"
    /\ st' = [st EXCEPT ![i] = "R"]
    /\ UNCHANGED <<items, cfg, out, types, impls, failed, cancelled, let, closed>>
CanFinish(i) == st[i] = "R" /\ (items[i].op = "wait" => let[i] # "")
Finish(i) ==
    /\ CanFinish(i)
    /\ LET r == Result(i) x == items[i] IN
       /\ st' = [st EXCEPT ![i] = "r"] /\ Mark(i, r)
       /\ types' = IF r /\ x.k = "ty" THEN types \cup {x.n} ELSE types
       /\ impls' = IF r /\ x.k = "im" THEN (x.n :> x.a) @@ impls ELSE impls
    /\ UNCHANGED <<items, cfg, failed, cancelled, let, closed>>
(* the worker takes notice of the outcome *)
Leave(i) ==
    /\ st[i] = "r"
    /\ st' = [st EXCEPT ![i] = out[i]]
    /\ failed' = (failed \/ out[i] = "F")
    /\ UNCHANGED <<items, cfg, out, types, impls, cancelled, let, closed>>
Release(i, ok) ==
    /\ i \in Exprs /\ items[i].op = "wait" /\ st[i] = "R" /\ let[i] = ""
    /\ let' = [let EXCEPT ![i] = IF ok THEN "ok" ELSE "no"]
    /\ UNCHANGED <<items, cfg, st, out, types, impls, failed, cancelled, closed>>
Cancel == cancelled' = TRUE /\ UNCHANGED <<items, cfg, st, out, types, impls, failed, let, closed>>
(* the end: all has been processed, or what has not been is not going to be *)
Over == /\ closed = <<>> /\ Busy = 0
        /\ Stop \/ \A i \in 1..N : st[i] # "O"
Close ==
    /\ Over
    /\ closed' = <<[i \in 1..N |-> IF st[i] # "O" THEN out[i] ELSE IF cancelled THEN "C" ELSE "O"]>>
    /\ UNCHANGED <<items, cfg, st, out, types, impls, failed, cancelled, let>>
--------------------------------------------------------------------------------
(* small batches *)
CONSTANTS Kinds, MaxItems
Init == /\ \E n \in 0..MaxItems : \E q \in [1..n -> 1..Len(Kinds)] :
              items = [i \in 1..n |-> Kinds[q[i]]]
        /\ cfg \in [pool : 1..2, par : BOOLEAN, ff : BOOLEAN]
        /\ st = [i \in 1..Len(items) |-> "O"] /\ out = st /\ let = [i \in 1..Len(items) |-> ""]
        /\ types = {} /\ impls = <<>> /\ failed = FALSE /\ cancelled = FALSE /\ closed = <<>>
Next == \/ \E i \in 1..N : Start(i) \/ Finish(i) \/ Leave(i)
        \/ \E i \in 1..N, ok \in BOOLEAN : Release(i, ok)
        \/ ~cancelled /\ closed = <<>> /\ Cancel
        \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Close)
        /\ WF_vars(\E i \in 1..N : Start(i) \/ Finish(i) \/ Leave(i) \/ \E ok \in BOOLEAN : Release(i, ok))

(* C28 *)
Definite == \A i \in 1..N : /\ IsDef(i) /\ st[i] # "O" => \A j \in 1..(i - 1) : IsDef(j) => Done(j)
                            /\ ~IsDef(i) /\ st[i] # "O" => Defined
OnePerItem == closed # <<>> => /\ Len(closed[1]) = N
                               /\ \A i \in 1..N : closed[1][i] \in {"S", "F", "O", "C"}
                               /\ ~cfg.ff /\ ~cancelled => \A i \in 1..N : closed[1][i] \in {"S", "F"}
(* an expression's outcome is that of the definitions and of it alone, whatever runs beside it *)
Alone == closed # <<>> => \A i \in Exprs : closed[1][i] \in {"S", "F"} => (closed[1][i] = "S") = Result(i)
(* C29 *)
Honest == closed # <<>> => \A i \in 1..N :
    /\ closed[1][i] = "C" => cancelled
    /\ closed[1][i] = "O" => cfg.ff /\ failed /\ ~cancelled
    /\ out[i] # "O" => closed[1][i] = out[i]
NoStartAfterStop == [][\A i \in 1..N : st[i] = "O" /\ st'[i] # "O" => ~Stop]_vars
Once == [][\A i \in 1..N : st[i] # "O" => st'[i] # "O" /\ (out[i] # "O" => out'[i] = out[i])]_vars
Ends == <>(closed # <<>>)
=============================================================================
