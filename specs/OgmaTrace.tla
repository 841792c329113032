------------------------------ MODULE OgmaTrace ------------------------------
(* Judges recorded evaluations: each record holds a program, the definitions in force, the input and
   what the code did with it.  Every mismatch is printed; the run goes on to the end.              *)
EXTENDS Ogma, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]

\* the specification is itself type sound: an expression that has a type has a value of that type,
\* an error or an unspecified result
Sound(ty, v) == v.k = "ok" => TyOf(v.v) = ty

(* the name a type has in annotations *)
RECURSIVE TyName(_)
RECURSIVE Dashed(_, _)
Dashed(ty, i) == IF i > Len(ty) THEN "" ELSE (IF i > 2 THEN "-" ELSE "") \o TyName(ty[i]) \o Dashed(ty, i + 1)
TyName(ty) == CASE ty[1] = "Tab" -> "Table"
                [] ty[1] = "Row" -> "TableRow"
                [] ty[1] = "Tup" -> "U_" \o Dashed(ty, 2) \o "_"
                [] ty[1] = "Def" -> ty[2]
                [] OTHER -> ty[1]

Verdict(e) ==
    LET ty == TypeOf(e.ast, TyOf(e.in), e.D)
    IN IF ty = Bad
       THEN IF e.r = "err" /\ e.stage \in {"compile", "parse"} THEN "rejected"
            ELSE IF e.r # "panic" /\ LooseTypeOf(e.ast, TyOf(e.in), e.D) # Bad THEN "any"
            ELSE "ill-typed-accepted"
       ELSE LET v == Value(e.ast, e.in, e.D)
            IN IF ~Sound(ty, v) THEN "SPEC-UNSOUND"
               ELSE IF e.ty # "" /\ e.ty # TyName(ty) THEN "wrong-type"
               ELSE CASE e.r = "ok" -> IF v.k = "any" THEN "any"
                                       ELSE IF v.k = "err" THEN "value-instead-of-error"
                                       ELSE IF Eqv(v.v, e.v) THEN "value" ELSE "wrong-value"
                      [] e.r = "err" /\ e.stage = "eval" ->
                             IF v.k = "err" THEN "error" ELSE IF v.k = "any" THEN "any" ELSE "error-instead-of-value"
                      [] e.r = "err" /\ e.inf -> "uninferred"
                      [] e.r = "err" -> "well-typed-rejected"
                      [] OTHER -> "panic"
Good_ == {"rejected", "value", "error", "any", "uninferred"}
Expected(e) == IF TypeOf(e.ast, TyOf(e.in), e.D) = Bad THEN "no type"
               ELSE Value(e.ast, e.in, e.D)

TInit == l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET x == Verdict(E)
            IN IF x \in Good_ THEN PrintT(<<"V", E.id, x>>)
               ELSE PrintT(<<"BAD", E.id, x, ToJson(Expected(E))>>)
TSpec == TInit /\ [][TNext]_l
Report == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
