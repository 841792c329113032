------------------------------ MODULE OgmaGen ------------------------------
(* The language as a machine.  A state is an input, the blocks run so far, the value that flows along
   and the variables in scope; a step runs one more block.  The vocabulary, the inputs and the
   definitions are chosen per property (OgmaVoc); TLC takes every program up to a length.

   The invariants tie the two readings of the language together and state, on the machine, what the
   properties say:
     Agree     running block by block is the value of the program (C20)
     Typed     what has a type has a value of it, or an error, never something else (C25)
     Immutable a step changes no binding except those its own let makes (C22, C27)
     Once      a branch or argument that is not reached does not matter: replacing it by one that
               fails changes nothing (C21)                                                        *)
EXTENDS Ogma, OgmaVoc, Json, IOUtils

CONSTANT MaxLen
MCLen == CASE IOEnv.LEN = "1" -> 1 [] IOEnv.LEN = "2" -> 2 [] IOEnv.LEN = "3" -> 3 [] OTHER -> 4
Voc == VocOf(IOEnv.VOC)
Ins == InsOf(IOEnv.VOC)
Defs == DefsOf(IOEnv.VOC)

VARIABLES inp, pr, cur, env, ty, te
vars == <<inp, pr, cur, env, ty, te>>
TD == [loose |-> FALSE] @@ Defs
Prog == [i \in 1..Len(pr) |-> Voc[pr[i]]]

Init == /\ inp \in 1..Len(Ins)
        /\ pr = <<>> /\ env = None /\ te = TNone
        /\ cur = Ok(Ins[inp]) /\ ty = TyOf(Ins[inp])

Run(i) ==
    /\ Len(pr) < MaxLen /\ ty # Bad /\ cur.k = "ok"
    /\ pr' = Append(pr, i) /\ inp' = inp
    /\ LET b == Voc[i] IN
       IF b.o = "let"
       THEN LET t == TLet(b.a, 1, ty, te, TD)
                r == LetBind(b.a, 1, cur.v, env, Defs)
            IN IF t.bad THEN ty' = Bad /\ UNCHANGED <<cur, env, te>>
               ELSE /\ te' = t.te @@ te /\ ty' = ty
                    /\ env' = IF r.k = "ok" THEN r.v @@ env ELSE env
                    /\ cur' = IF r.k = "ok" THEN cur ELSE r
       ELSE LET t == Noted(b.an, TBlock(b, ty, te, TD))
            IN /\ ty' = t /\ UNCHANGED <<env, te>>
               /\ cur' = IF t = Bad THEN cur ELSE Block(b, cur.v, env, Defs)
Next == \E i \in 1..Len(Voc) : Run(i)
Spec == Init /\ [][Next]_vars

Agree == ty # Bad /\ TypeOf(Prog, TyOf(Ins[inp]), Defs) # Bad => Value(Prog, Ins[inp], Defs) = cur
Typed == ty # Bad /\ cur.k = "ok" => TyOf(cur.v) = ty
Scoped == ty # Bad => DOMAIN env \subseteq DOMAIN te /\ (cur.k = "ok" => \A x \in DOMAIN env : TyOf(env[x]) = te[x].ty)
Bound(b) == {b.a[j].x : j \in {j \in 1..Len(b.a) : j % 2 = 0 \/ j = Len(b.a)}}
Immutable == [][\A x \in DOMAIN env : (\/ Voc[pr'[Len(pr')]].o # "let" \/ x \notin Bound(Voc[pr'[Len(pr')]])) => env'[x] = env[x]]_vars

(* reached arguments of the last block, and the block with the others replaced by a failing one *)
Fails == [k |-> "e", an |-> <<>>, e |-> <<B("range", <<N(0), N(3)>>), B("nth", <<N(9), E1(Ty(B("get", <<S("a")>>), TBool))>>)>>]
Reached(b, v, en) ==
    IF b.o = "if"
    THEN LET n == Len(b.a)
             first == {i \in 1..(n - 1) : i % 2 = 1 /\ LET c == Arg(b.a[i], v, en, Defs) IN c.k # "ok" \/ c.v.b}
         IN IF first = {} THEN {i \in 1..n : i % 2 = 1}
            ELSE {i \in 1..Least(first) : i % 2 = 1} \cup
                 (IF Arg(b.a[Least(first)], v, en, Defs).k = "ok" THEN {Least(first) + 1} ELSE {})
    ELSE LET stop == {i \in 1..Len(b.a) : LET c == Arg(b.a[i], v, en, Defs) IN c.k # "ok" \/ c.v.b = (b.o = "or")}
         IN IF stop = {} THEN 1..Len(b.a) ELSE 1..Least(stop)
Once == \A j \in 1..Len(Voc) :
            LET b == Voc[j]
            IN b.o \in {"if", "and", "or"} /\ ty # Bad /\ cur.k = "ok" /\ TBlock(b, ty, te, TD) # Bad
               => LET r == Reached(b, cur.v, env)
                  IN Block(b, cur.v, env, Defs) =
                     Block([b EXCEPT !.a = [i \in 1..Len(b.a) |-> IF i \in r THEN b.a[i] ELSE Fails]], cur.v, env, Defs)

Vocabulary == [voc |-> Voc, ins |-> Ins, D |-> Defs]
Out == PrintT(ToJson([i |-> inp', p |-> pr']))
ASSUME PrintT(ToJson(Vocabulary))
=============================================================================
