-------------------------------- MODULE Ogma --------------------------------
(* The language of kdr-aus/ogma: values, types, and what a pipeline means.

   An expression is a sequence of blocks; a block is [o, a, f, ty, nm, an]: its operation, its
   arguments, its flags, its type flag (<<>>: none), the column names given as flags, and the type it
   is annotated with (<<>>: none).
   An argument is
     [k |-> "n", n, d]   a number n/d               [k |-> "s", s]   a string (code points)
     [k |-> "v", x]      a variable                 [k |-> "i"]      the input of the block (#i)
     [k |-> "nil" | "t" | "f" | "b"]                #n  #t  #f  #b (line feed)
     [k |-> "e", e, an]  a sub-expression           [k |-> "d", l, f, ty]   l.f:ty

   Two denotations are given. `Blocks` is the value of an expression on an input and `TBlocks` its
   type; both are the fold of the blocks from left to right.  A result is a value ("ok"), a run time
   error ("err"), or "any" where the specification does not say: an operation had to look inside of
   a number that is not exactly representable here.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

--------------------------------------------------------------------------------
(* values *)
NilV == [t |-> "Nil"]
Bl(x) == [t |-> "Bool", b |-> x]
Nm(x, y) == [t |-> "Num", n |-> x, d |-> y]
St(x) == [t |-> "Str", s |-> x]
Od(x) == [t |-> "Ord", o |-> x]
Tb(x) == [t |-> "Tab", r |-> x]
Rw(x, y) == [t |-> "Row", h |-> x, r |-> y]
Tp(x) == [t |-> "Tup", f |-> x]
Df(x, y, z) == [t |-> "Def", n |-> x, i |-> y, f |-> z]
Unk(y) == [t |-> "Unk", y |-> y]

Ok(v) == [k |-> "ok", v |-> v]
Err == [k |-> "err"]
Dunno == [k |-> "any"]

(* types *)
TNil == <<"Nil">>   TBool == <<"Bool">>   TNum == <<"Num">>   TStr == <<"Str">>
TTab == <<"Tab">>   TRow == <<"Row">>     TOrd == <<"Ord">>
TTup(ts) == <<"Tup">> \o ts
TDef(n) == <<"Def", n>>
Bad == <<"bad">>

RECURSIVE TyOf(_)
TyOf(v) == CASE v.t = "Tup" -> TTup([i \in 1..Len(v.f) |-> TyOf(v.f[i])])
             [] v.t = "Def" -> TDef(v.n)
             [] v.t = "Unk" -> v.y
             [] OTHER -> <<v.t>>

--------------------------------------------------------------------------------
(* numbers: dyadic, of moderate size; everything else is Unk *)
Mag(x) == IF x < 0 THEN -x ELSE x
Small(x) == Mag(x) <= 32767
RECURSIVE Red(_, _)
Red(n, d) == IF d > 1 /\ n % 2 = 0 THEN Red(n \div 2, d \div 2) ELSE <<n, d>>
MkNum(n, d) == LET q == Red(n, d)
               IN IF Mag(q[1]) <= 1048576 /\ q[2] <= 256 THEN Nm(q[1], q[2]) ELSE Unk(TNum)
Whole(n) == MkNum(n, 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
IsPow2(x) == x \in {1, 2, 4, 8, 16, 32, 64, 128, 256}
IsU(v) == v.t = "Unk"
NumOp(o, a, b) ==
    IF IsU(a) \/ IsU(b) THEN Unk(TNum)
    ELSE CASE o = "+" -> MkNum(a.n * b.d + b.n * a.d, a.d * b.d)
           [] o = "-" -> MkNum(a.n * b.d - b.n * a.d, a.d * b.d)
           [] o = "*" -> IF Small(a.n) /\ Small(b.n) THEN MkNum(a.n * b.n, a.d * b.d) ELSE Unk(TNum)
           [] o = "/" -> IF b.n = 0 THEN Unk(TNum)
                         ELSE LET p == (IF b.n < 0 THEN -1 ELSE 1) * a.n * b.d
                                  q == a.d * Mag(b.n)
                                  g == Gcd(Mag(p), q)
                              IN IF IsPow2(q \div g) THEN MkNum(p \div g, q \div g) ELSE Unk(TNum)
           [] o = "max" -> IF a.n * b.d > b.n * a.d THEN a ELSE b
           [] o = "min" -> IF a.n * b.d < b.n * a.d THEN a ELSE b
           [] OTHER -> Unk(TNum)
FloorN(a) == IF IsU(a) THEN a ELSE Whole(a.n \div a.d)
CeilN(a) == IF IsU(a) THEN a ELSE Whole(-((-a.n) \div a.d))
ModN(a, b) == NumOp("-", a, NumOp("*", FloorN(NumOp("/", a, b)), b))
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Frac(_, _)
Frac(n, d) == IF n = 0 THEN <<>> ELSE <<48 + (n * 10) \div d>> \o Frac((n * 10) % d, d)
NumStr(v) ==
    IF IsU(v) \/ v.n = 0 THEN Unk(TStr)      \* the sign of zero is not modelled
    ELSE LET m == Mag(v.n)
         IN St((IF v.n < 0 THEN <<45>> ELSE <<>>) \o Digits(m \div v.d)
               \o (IF v.d = 1 THEN <<>> ELSE <<46>> \o Frac(m % v.d, v.d)))

--------------------------------------------------------------------------------
(* order: -1, 0, 1; 2 when it is not known *)
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE CmpSeq(_, _, _)
CmpSeq(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN Sgn(Len(a) - Len(b))
                   ELSE IF a[i] # b[i] THEN Sgn(a[i] - b[i]) ELSE CmpSeq(a, b, i + 1)
OrdN(o) == CASE o = "lt" -> 0 [] o = "eq" -> 1 [] OTHER -> 2
RECURSIVE Cmp(_, _)
RECURSIVE CmpTup(_, _, _)
Cmp(a, b) ==
    IF IsU(a) \/ IsU(b) THEN 2
    ELSE CASE a.t = "Nil" -> 0
           [] a.t = "Bool" -> Sgn((IF a.b THEN 1 ELSE 0) - (IF b.b THEN 1 ELSE 0))
           [] a.t = "Num" -> Sgn(a.n * b.d - b.n * a.d)
           [] a.t = "Str" -> CmpSeq(a.s, b.s, 1)
           [] a.t = "Ord" -> Sgn(OrdN(a.o) - OrdN(b.o))
           [] a.t = "Tup" -> CmpTup(a.f, b.f, 1)
           [] OTHER -> 2
CmpTup(a, b, i) == IF i > Len(a) THEN 0
                   ELSE LET c == Cmp(a[i], b[i]) IN IF c = 0 THEN CmpTup(a, b, i + 1) ELSE c
RECURSIVE Comparable(_)
Comparable(ty) == \/ ty \in {TNil, TBool, TNum, TStr, TOrd}
                  \/ ty[1] = "Tup" /\ \A i \in 2..Len(ty) : Comparable(ty[i])
(* equality of tuples is decided element by element; one known difference decides it *)
RECURSIVE EqT(_, _)
EqT(a, b) == IF a.t = "Tup" /\ b.t = "Tup"
             THEN LET c == TLCEval([i \in 1..Len(a.f) |-> EqT(a.f[i], b.f[i])])
                  IN IF \E i \in 1..Len(c) : c[i] \notin {0, 2} THEN 1
                     ELSE IF \E i \in 1..Len(c) : c[i] = 2 THEN 2 ELSE 0
             ELSE Cmp(a, b)
OrdOf(c) == CASE c = 0 -> Od("eq") [] c < 0 -> Od("lt") [] OTHER -> Od("gt")

CmpOps == {"=", "eq", "!=", "<", "<=", ">", ">="}
CmpOp(o, a, b) ==
    IF o \in {"=", "eq", "!="}
    THEN LET c == EqT(a, b)
         IN IF c = 2 THEN Dunno ELSE Ok(Bl(IF o = "!=" THEN c # 0 ELSE c = 0))
    ELSE LET c == Cmp(a, b)
         IN IF c = 2 THEN Dunno
            ELSE Ok(Bl(CASE o = "<" -> c < 0 [] o = "<=" -> c <= 0
                         [] o = ">" -> c > 0 [] OTHER -> c >= 0))

--------------------------------------------------------------------------------
(* sequences and tables; row 1 of a table is its header *)
Range(s) == {s[i] : i \in 1..Len(s)}
Map(s, F(_)) == TLCEval([i \in 1..Len(s) |-> F(s[i])])
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Keep(s, P(_)) == LET RECURSIVE K(_)
                     K(i) == IF i > Len(s) THEN <<>> ELSE (IF P(i) THEN <<s[i]>> ELSE <<>>) \o K(i + 1)
                 IN K(1)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxN(a, b) == IF a > b THEN a ELSE b
MinN(a, b) == IF a < b THEN a ELSE b

Cols(r) == IF r = <<>> THEN 0 ELSE Len(r[1])
Pad(row, n) == row \o [i \in 1..MaxN(0, n - Len(row)) |-> NilV]
Rect(r) == LET w == IF r = <<>> THEN 0 ELSE CHOOSE m \in {Len(r[i]) : i \in 1..Len(r)} :
                                                 \A i \in 1..Len(r) : Len(r[i]) <= m
           IN [i \in 1..Len(r) |-> Pad(r[i], w)]
ColIdx(r, name) == IF r = <<>> THEN 0
                   ELSE LET S == {i \in 1..Len(r[1]) : r[1][i] = St(name)}
                        IN IF S = {} THEN 0 ELSE Least(S)
Body(r) == 2..Len(r)
AppendName(i) == St(<<95, 97, 112, 112, 101, 110, 100>> \o Digits(i))

(* the whole number a value stands for; -1: none *)
UInt(v) == IF v.d = 1 /\ v.n >= 0 THEN v.n ELSE -1

(* the canonical order of cells of different kinds *)
Kind(v) == CASE v.t = "Bool" -> 0
             [] v.t = "Num" -> 1
             [] v.t = "Str" -> 2
             [] v.t \in {"Ord", "Def", "Tup"} -> 3
             [] v.t = "Nil" -> 4
             [] v.t = "Tab" -> 5
             [] OTHER -> 6
CanonCmp(a, b) == IF Kind(a) # Kind(b) THEN Sgn(Kind(a) - Kind(b))
                  ELSE IF Kind(a) \in {0, 1, 2} THEN Cmp(a, b) ELSE 0
(* the stable permutation of s that is ordered by C *)
SortBy(s, C(_, _)) ==
    LET n == Len(s)
        rank == TLCEval([i \in 1..n |-> 1 + Cardinality({j \in 1..n : j # i /\ (C(s[j], s[i]) < 0 \/ (C(s[j], s[i]) = 0 /\ j < i))})])
    IN [k \in 1..n |-> s[CHOOSE i \in 1..n : rank[i] = k]]

AddRows(p, n, inter) ==      \* rows of n below those of p
    IF inter
    THEN LET w == MinN(Cols(p), Cols(n))
         IN [i \in 1..(Len(p) + MaxN(0, Len(n) - 1)) |->
                SubSeq(IF i <= Len(p) THEN p[i] ELSE n[i - Len(p) + 1], 1, w)]
    ELSE IF p = <<>> THEN n
    ELSE IF n = <<>> THEN p
    ELSE LET w == Cols(p)
             r == Rect(<<Pad(p[1], Cols(n))>> \o Tail(p) \o Tail(n))
         IN [r EXCEPT ![1] = [j \in 1..Len(r[1]) |-> IF j <= w THEN p[1][j] ELSE n[1][j]]]
AddCols(p, n, inter) ==
    LET h == IF inter THEN MinN(Len(p), Len(n)) ELSE MaxN(Len(p), Len(n))
        Row(r, i) == IF i <= Len(r) THEN r[i] ELSE [j \in 1..Cols(r) |-> NilV]
    IN [i \in 1..h |-> Row(p, i) \o Row(n, i)]

--------------------------------------------------------------------------------
(* definitions in force: D.d, a sequence of [n, ty, p, b]; p a sequence of [x, k, ty], k "val" or
   "expr"; D.t, the user types: a sequence of [n, sum, v], v a sequence of [c, f], f a sequence of
   [x, ty].  The newest of several wins.                                                          *)
TypedDefs(D, o, ty) == {i \in 1..Len(D.d) : D.d[i].n = o /\ D.d[i].ty = ty}
Lookup(D, o, ty) == LET S == TypedDefs(D, o, ty)
                        U == TypedDefs(D, o, <<>>)
                    IN IF S # {} THEN CHOOSE i \in S : \A j \in S : j <= i
                       ELSE IF U # {} THEN CHOOSE i \in U : \A j \in U : j <= i ELSE 0
(* there is no recursion: inside of the body of a definition for a type that definition does not exist *)
Hide(D, u) == IF D.d[u].ty = <<>> THEN D ELSE [D EXCEPT !.d[u].n = ""]
Ctors(D, o) == {<<i, j>> \in (1..Len(D.t)) \X (1..4) : j <= Len(D.t[i].v) /\ D.t[i].v[j].c = o}
DefTy(D, n) == D.t[CHOOSE i \in 1..Len(D.t) : D.t[i].n = n]
FieldNo(fs, x) == LET S == {i \in 1..Len(fs) : fs[i].x = x} IN IF S = {} THEN 0 ELSE Least(S)
TupField(x, n) == LET S == {i \in 1..n : x = <<116>> \o Digits(i - 1)} IN IF S = {} THEN 0 ELSE Least(S)

OrdCtor(o) == CASE o = "Ord::Lt" -> "lt" [] o = "Ord::Eq" -> "eq" [] OTHER -> "gt"

--------------------------------------------------------------------------------
RECURSIVE Blocks(_, _, _, _, _)
RECURSIVE Block(_, _, _, _)
RECURSIVE Arg(_, _, _, _)
RECURSIVE Args(_, _, _, _)
RECURSIVE NumFold(_, _, _, _)
RECURSIVE FoldRows(_, _, _, _, _, _)
RECURSIVE WhileRows(_, _, _, _, _, _, _)
RECURSIVE LogicFold(_, _, _, _, _)
RECURSIVE IfChain(_, _, _, _, _)
RECURSIVE LetBind(_, _, _, _, _)

None == [x \in {} |-> NilV]
Value(e, in, D) == LET r == Blocks(e, 1, in, None, D) IN r

Blocks(e, i, in, env, D) ==
    IF i > Len(e) THEN Ok(in)
    ELSE IF e[i].o = "let"
    THEN LET b == LetBind(e[i].a, 1, in, env, D)
         IN IF b.k # "ok" THEN b ELSE Blocks(e, i + 1, in, b.v @@ env, D)
    ELSE LET r == Block(e[i], in, env, D)
         IN IF r.k # "ok" THEN r ELSE Blocks(e, i + 1, r.v, env, D)

(* `let e1 $a e2 $b .. [$z]`: the expressions are evaluated where the let stands, before any of its
   own variables exist; the bindings hold from the next block on *)
LetBind(a, i, in, env, D) ==
    IF i > Len(a) THEN Ok(None)
    ELSE IF i = Len(a) THEN Ok(a[i].x :> in)
    ELSE LET r == Arg(a[i], in, env, D)
         IN IF r.k # "ok" THEN r
            ELSE LET q == LetBind(a, i + 2, in, env, D)
                 IN IF q.k # "ok" THEN q ELSE Ok(q.v @@ (a[i + 1].x :> r.v))

GetField(v, f) ==
    CASE v.t = "Tup" -> Ok(v.f[TupField(f, Len(v.f))])
      [] OTHER -> Dunno
RowGet(v, f, ty) == LET c == ColIdx(<<v.h>>, f)
                    IN IF c = 0 THEN Err
                       ELSE IF TyOf(v.r[c]) = ty THEN Ok(v.r[c]) ELSE Err
DefGet(v, f, D) == Ok(v.f[FieldNo(DefTy(D, v.n).v[1].f, f)])

Arg(a, sup, env, D) ==
    CASE a.k = "n" -> Ok(Nm(a.n, a.d))
      [] a.k = "s" -> Ok(St(a.s))
      [] a.k = "i" -> Ok(sup)
      [] a.k = "nil" -> Ok(NilV)
      [] a.k = "t" -> Ok(Bl(TRUE))
      [] a.k = "f" -> Ok(Bl(FALSE))
      [] a.k = "b" -> Ok(St(<<10>>))
      [] a.k = "v" -> LET v == env[a.x]
                      IN IF v.t = "Clo" THEN Arg(v.a, sup, v.env, v.D) ELSE Ok(v)
      [] a.k = "e" -> Blocks(a.e, 1, sup, env, D)
      [] a.k = "d" -> LET l == Arg(a.l, sup, env, D)
                      IN IF l.k # "ok" THEN l
                         ELSE IF l.v.t = "Row" THEN RowGet(l.v, a.f, a.ty)
                         ELSE IF l.v.t = "Def" THEN DefGet(l.v, a.f, D)
                         ELSE GetField(l.v, a.f)
      [] OTHER -> Dunno

(* all arguments, left to right; the first error ends it *)
Args(as, sup, env, D) ==
    IF as = <<>> THEN Ok(<<>>)
    ELSE LET r == Arg(Head(as), sup, env, D)
         IN IF r.k # "ok" THEN r
            ELSE LET q == Args(Tail(as), sup, env, D)
                 IN IF q.k # "ok" THEN q ELSE Ok(<<r.v>> \o q.v)

NumFold(o, acc, vs, i) == IF i > Len(vs) THEN acc ELSE NumFold(o, NumOp(o, acc, vs[i]), vs, i + 1)

(* the value of one argument on every row of a table (position 1 unused) *)
OnRows(a, r, env, D) ==
    LET q == TLCEval([i \in 1..Len(r) |-> IF i = 1 THEN Ok(NilV) ELSE Arg(a, Rw(r[1], r[i]), env, D)])
    IN IF \E i \in 1..Len(q) : q[i].k = "err" THEN Err
       ELSE IF \E i \in 1..Len(q) : q[i].k = "any" THEN Dunno
       ELSE Ok(TLCEval([i \in 1..Len(q) |-> q[i].v]))
Bind(rs, F(_)) == IF rs.k # "ok" THEN rs ELSE F(rs.v)
Seqq(q) == IF \E i \in 1..Len(q) : q[i].k = "err" THEN Err
           ELSE IF \E i \in 1..Len(q) : q[i].k = "any" THEN Dunno
           ELSE Ok(TLCEval([i \in 1..Len(q) |-> q[i].v]))

FoldRows(acc, r, i, a, env, D) ==
    IF i > Len(r) THEN Ok(acc)
    ELSE LET x == Arg(a, acc, ("row" :> Rw(r[1], r[i])) @@ env, D)
         IN IF x.k # "ok" THEN x ELSE FoldRows(x.v, r, i + 1, a, env, D)
WhileRows(acc, r, i, p, a, env, D) ==
    IF i > Len(r) THEN Ok(acc)
    ELSE LET en == ("row" :> Rw(r[1], r[i])) @@ env
             g == Arg(p, acc, en, D)
         IN IF g.k # "ok" THEN g
            ELSE IF ~g.v.b THEN Ok(acc)
            ELSE LET x == Arg(a, acc, en, D)
                 IN IF x.k # "ok" THEN x ELSE WhileRows(x.v, r, i + 1, p, a, env, D)

(* `and`, `or`: the first argument that decides ends it *)
LogicFold(o, as, in, env, D) ==
    IF as = <<>> THEN Ok(Bl(o = "and"))
    ELSE LET r == Arg(Head(as), in, env, D)
         IN IF r.k # "ok" THEN r
            ELSE IF r.v.b = (o = "or") THEN r
            ELSE LogicFold(o, Tail(as), in, env, D)
IfChain(as, i, in, env, D) ==
    IF i = Len(as) THEN Arg(as[i], in, env, D)
    ELSE LET c == Arg(as[i], in, env, D)
         IN IF c.k # "ok" THEN c
            ELSE IF c.v.b THEN Arg(as[i + 1], in, env, D)
            ELSE IfChain(as, i + 2, in, env, D)

Has(b, f) == \E i \in 1..Len(b.f) : b.f[i] = f

(* column arguments: their indices in order; 0 for one that is missing *)
AnyU(vs) == \E i \in 1..Len(vs) : IsU(vs[i])
Indices(b, r, env, D) == Bind(Args(b.a, NilV, env, D), LAMBDA vs : IF AnyU(vs) THEN Dunno ELSE Ok(TLCEval([i \in 1..Len(vs) |-> ColIdx(r, vs[i].s)])))
WithCount(b, in, env, D, F(_)) ==      \* first argument a count, on the block's input
    Bind(Arg(b.a[1], in, env, D), LAMBDA v : IF IsU(v) THEN Dunno
                                              ELSE IF UInt(v) < 0 THEN Err ELSE F(UInt(v)))

(* distinct values in order of first appearance -> sorted groups *)
Grouped(r, keys, C(_, _)) ==
    LET idx == [i \in 1..(Len(r) - 1) |-> i + 1]
        first == Keep(idx, LAMBDA k : \A j \in 2..(idx[k] - 1) : C(keys[j], keys[idx[k]]) # 0)
        srt == SortBy(first, LAMBDA x, y : C(keys[x], keys[y]))
        Grp(i) == <<r[1]>> \o Map(Keep(idx, LAMBDA k : C(keys[idx[k]], keys[i]) = 0), LAMBDA j : r[j])
    IN [g \in 1..Len(srt) |-> <<keys[srt[g]], Tb(Grp(srt[g]))>>]
KeyHdr == <<St(<<107, 101, 121>>), St(<<118, 97, 108, 117, 101>>)>>

(* how a cell is shown by grp: unspecified for numbers other than whole ones *)
CellStr(v) == CASE v.t = "Str" -> Ok(v.s)
                [] v.t = "Bool" -> Ok(IF v.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>)
                [] OTHER -> Dunno
RECURSIVE JoinKey(_, _)
JoinKey(ss, acc) == IF ss = <<>> THEN acc
                    ELSE JoinKey(Tail(ss), (IF acc = <<>> THEN acc ELSE acc \o <<45>>) \o Head(ss))

OnStr(b, in, env, D) ==
    LET s == in.s IN
    CASE b.o = "+" -> Bind(Args(b.a, in, env, D), LAMBDA vs :
                           IF \E i \in 1..Len(vs) : IsU(vs[i]) THEN Ok(Unk(TStr))
                           ELSE Ok(St(s \o Concat([i \in 1..Len(vs) |-> vs[i].s]))))
      [] b.o = "len" -> Ok(Whole(Len(s)))
      [] b.o = "empty" -> Ok(Bl(s = <<>>))
      [] b.o = "rev" -> Ok(St(Reverse(s)))
      [] b.o = "dedup" -> Ok(St(Keep(s, LAMBDA i : i = 1 \/ s[i] # s[i - 1])))
      [] b.o = "nth" -> WithCount(b, in, env, D, LAMBDA n : IF n < Len(s) THEN Ok(St(<<s[n + 1]>>)) ELSE Err)
      [] b.o = "last" -> IF s = <<>> THEN Err ELSE Ok(St(<<s[Len(s)]>>))
      [] b.o = "skip" -> WithCount(b, in, env, D, LAMBDA n : Ok(St(SubSeq(s, MinN(n, Len(s)) + 1, Len(s)))))
      [] b.o = "take" -> WithCount(b, in, env, D, LAMBDA n : Ok(St(SubSeq(s, 1, MinN(n, Len(s))))))
      [] b.o = "filter" -> LET q == TLCEval([i \in 1..Len(s) |-> Arg(b.a[1], St(<<s[i]>>), env, D)])
                           IN Bind(Seqq(q), LAMBDA vs : Ok(St(Keep(s, LAMBDA i : vs[i].b))))
      [] b.o = "to-str" -> Ok(in)
      [] OTHER -> Dunno

OnNum(b, in, env, D) ==
    CASE b.o \in {"+", "-", "*", "/", "max", "min"} ->
             Bind(Args(b.a, in, env, D), LAMBDA vs : Ok(NumFold(b.o, in, vs, 1)))
      [] b.o = "floor" -> Ok(FloorN(in))
      [] b.o = "ceil" -> Ok(CeilN(in))
      [] b.o = "is-finite" -> IF IsU(in) THEN Dunno ELSE Ok(Bl(TRUE))
      [] b.o = "abs" -> Ok(IF IsU(in) THEN in ELSE Nm(Mag(in.n), in.d))
      [] b.o = "mod" -> Bind(Arg(b.a[1], in, env, D), LAMBDA v : Ok(ModN(in, v)))
      [] b.o = "to-str" -> Ok(NumStr(in))
      [] OTHER -> Dunno

FilterCols(b, r, env, D) ==
    LET w == Cols(r)
        q == TLCEval([j \in 1..w |-> Arg(b.a[1], IF r[1][j].t = "Str" THEN r[1][j] ELSE St(<<>>), env, D)])
    IN Bind(Seqq(q), LAMBDA vs :
         IF \A j \in 1..w : ~vs[j].b THEN Ok(Tb(<<>>))     \* a table without columns has no rows
         ELSE Ok(Tb(TLCEval([i \in 1..Len(r) |-> Keep(r[i], LAMBDA j : vs[j].b)]))))

OnTab(b, in, env, D) ==
    LET r == in.r
        nrow == MaxN(0, Len(r) - 1)
        Sub(rows) == Ok(Tb(TLCEval(rows)))
    IN
    CASE b.o = "len" -> Ok(Whole(IF Has(b, "cols") THEN Cols(r) ELSE nrow))
      [] b.o = "empty" -> Ok(Bl(nrow = 0))
      [] b.o = "+" ->
            Bind(Args(b.a, in, env, D), LAMBDA vs :
              IF Has(b, "intersect") /\ ~Has(b, "union")
                 /\ (r = <<>> \/ \E i \in 1..Len(vs) : vs[i].r = <<>>) THEN Dunno
              ELSE LET RECURSIVE F(_, _)
                       F(acc, i) == IF i > Len(vs) THEN acc
                                    ELSE F(IF Has(b, "cols") THEN AddCols(acc, vs[i].r, Has(b, "intersect") /\ ~Has(b, "union"))
                                           ELSE AddRows(acc, vs[i].r, Has(b, "intersect") /\ ~Has(b, "union")), i + 1)
                   IN Sub(F(r, 1)))
      [] b.o = "append" ->
            IF r = <<>> THEN Dunno ELSE      \* columns without a header: left open
            LET q == TLCEval([c \in 1..Len(b.a) |-> OnRows(b.a[c], r, env, D)])
                Name(c) == IF c <= Len(b.nm) THEN St(b.nm[c]) ELSE AppendName(c - Len(b.nm))
            IN Bind(Seqq(q), LAMBDA cs :
                 Sub([i \in 1..Len(r) |-> r[i] \o [c \in 1..Len(cs) |-> IF i = 1 THEN Name(c) ELSE cs[c][i]]]))
      [] b.o = "append-row" ->
            Bind(Args(b.a, in, env, D), LAMBDA vs :
              LET t == Rect(r \o <<vs>>)
                  Nth(j) == Cardinality({k \in 1..j : t[1][k].t = "Nil"})
              IN Sub([t EXCEPT ![1] = [j \in 1..Len(t[1]) |-> IF t[1][j].t = "Nil" THEN AppendName(Nth(j)) ELSE t[1][j]]]))
      [] b.o = "dedup" ->
            Bind(IF b.a = <<>> THEN Ok([j \in 1..Cols(r) |-> j]) ELSE Indices(b, r, env, D), LAMBDA ix :
              IF 0 \in Range(ix) THEN Err
              ELSE IF \E i \in 1..Len(r) : \E j \in 1..Len(ix) : IsU(r[i][ix[j]]) THEN Dunno
              ELSE Sub(Keep(r, LAMBDA i : i <= 2 \/ \E j \in 1..Len(ix) : r[i][ix[j]] # r[i - 1][ix[j]])))
      [] b.o = "filter" ->
            IF Has(b, "cols") THEN FilterCols(b, r, env, D)
            ELSE IF Len(b.a) = 1
            THEN Bind(OnRows(b.a[1], r, env, D), LAMBDA vs : Sub(Keep(r, LAMBDA i : i = 1 \/ vs[i].b)))
            ELSE LET ty == IF b.ty = <<>> THEN TNum ELSE b.ty
                 IN Bind(Arg(b.a[1], NilV, env, D), LAMBDA nm :
                     IF IsU(nm) THEN Dunno ELSE
                     LET c == ColIdx(r, nm.s)
                     IN IF nrow = 0 THEN Ok(in)
                        ELSE IF c = 0 THEN Err
                        ELSE LET q == TLCEval([i \in 1..Len(r) |-> IF i = 1 THEN Ok(Bl(TRUE))
                                                          ELSE IF TyOf(r[i][c]) # ty THEN Ok(Bl(FALSE))
                                                          ELSE Arg(b.a[2], r[i][c], env, D)])
                             IN Bind(Seqq(q), LAMBDA vs : Sub(Keep(r, LAMBDA i : vs[i].b))))
      [] b.o = "fold" -> Bind(Arg(b.a[1], NilV, env, D), LAMBDA v : FoldRows(v, r, 2, b.a[2], env, D))
      [] b.o = "fold-while" -> Bind(Arg(b.a[1], NilV, env, D), LAMBDA v : WhileRows(v, r, 2, b.a[2], b.a[3], env, D))
      [] b.o = "grp" ->
            IF r = <<>> THEN Err
            ELSE Bind(Indices(b, r, env, D), LAMBDA ix :
              IF 0 \in Range(ix) THEN Err
              ELSE IF \E i \in Body(r) : \E j \in 1..Len(ix) : CellStr(r[i][ix[j]]).k # "ok" THEN Dunno
              ELSE LET keys == TLCEval([i \in 1..Len(r) |-> IF i = 1 THEN St(<<>>) ELSE
                                  St(JoinKey([j \in 1..Len(ix) |-> CellStr(r[i][ix[j]]).v], <<>>))])
                   IN Sub(<<KeyHdr>> \o Grouped(r, keys, Cmp)))
      [] b.o = "grp-by" ->
            IF r = <<>> THEN Ok(Tb(<<KeyHdr>>))
            ELSE Bind(OnRows(b.a[1], r, env, D), LAMBDA ks :
              IF \E i, j \in Body(r) : Cmp(ks[i], ks[j]) = 2 THEN Dunno
              ELSE Sub(<<KeyHdr>> \o Grouped(r, ks, Cmp)))
      [] b.o = "map" ->
            Bind(Arg(b.a[1], NilV, env, D), LAMBDA nm :
              IF IsU(nm) THEN Dunno ELSE
              LET c == ColIdx(r, nm.s)
                  ty == IF b.ty = <<>> THEN TNum ELSE b.ty
              IN IF c = 0 THEN Err
                 ELSE LET q == TLCEval([i \in 1..Len(r) |->
                                IF i = 1 THEN Ok(NilV)
                                ELSE LET en == ("row" :> Rw(r[1], r[i])) @@ env
                                     IN IF Has(b, "force") THEN Arg(b.a[2], NilV, en, D)
                                        ELSE IF TyOf(r[i][c]) # ty THEN Err
                                        ELSE Arg(b.a[2], r[i][c], en, D)])
                      IN Bind(Seqq(q), LAMBDA vs :
                           Sub([i \in 1..Len(r) |-> IF i = 1 THEN r[1] ELSE [r[i] EXCEPT ![c] = vs[i]]])))
      [] b.o = "nth" ->
            WithCount(b, in, env, D, LAMBDA n : IF n + 2 > Len(r) THEN Err
                                                ELSE Arg(b.a[2], Rw(r[1], r[n + 2]), env, D))
      [] b.o = "last" -> IF nrow = 0 THEN Err ELSE Arg(b.a[1], Rw(r[1], r[Len(r)]), env, D)
      [] b.o = "pick" ->
            Bind(Args(b.a, NilV, env, D), LAMBDA vs :
              IF AnyU(vs) THEN Dunno ELSE
              LET ix == TLCEval([i \in 1..Len(vs) |-> ColIdx(r, vs[i].s)])
                  rest == IF Has(b, "trail") THEN Keep([j \in 1..Cols(r) |-> j], LAMBDA j : j \notin Range(ix)) ELSE <<>>
                  Cell(i, c) == IF c <= Len(ix)
                                THEN IF ix[c] # 0 THEN r[i][ix[c]] ELSE IF i = 1 THEN vs[c] ELSE NilV
                                ELSE r[i][rest[c - Len(ix)]]
              IN IF 0 \in Range(ix) /\ ~Has(b, "add") THEN Err
                 ELSE Sub([i \in 1..Len(r) |-> [c \in 1..(Len(ix) + Len(rest)) |-> Cell(i, c)]]))
      [] b.o = "ren" ->
            Bind(Args(b.a, NilV, env, D), LAMBDA vs :
              IF AnyU(vs) THEN Dunno ELSE
              LET m == Len(vs) \div 2
                  ix == [i \in 1..m |-> LET v == vs[2 * i - 1]
                                        IN IF v.t = "Num" THEN (IF UInt(v) >= 0 /\ UInt(v) < Cols(r) THEN UInt(v) + 1 ELSE 0)
                                           ELSE IF v.t = "Str" THEN ColIdx(r, v.s) ELSE 0]
                  LastFor(j) == {i \in 1..m : ix[i] = j}
              IN IF 0 \in Range(ix) THEN Err
                 ELSE IF r = <<>> THEN Ok(in)
                 ELSE Sub([r EXCEPT ![1] = [j \in 1..Cols(r) |->
                        IF LastFor(j) = {} THEN r[1][j]
                        ELSE vs[2 * (CHOOSE i \in LastFor(j) : \A k \in LastFor(j) : k <= i)]]]))
      [] b.o = "ren-with" ->
            Bind(Arg(b.a[1], NilV, env, D), LAMBDA n :
              LET ty == IF b.ty = <<>> THEN TStr ELSE b.ty
              IN IF IsU(n) THEN Dunno
                 ELSE IF UInt(n) < 0 \/ UInt(n) >= Len(r) THEN Err
                 ELSE LET row == r[UInt(n) + 1]
                          q == TLCEval([j \in 1..Len(row) |-> IF TyOf(row[j]) # ty THEN Err ELSE Arg(b.a[2], row[j], env, D)])
                      IN Bind(Seqq(q), LAMBDA vs : Sub([r EXCEPT ![1] = vs])))
      [] b.o = "skip-hdrs" ->
            Bind(Arg(b.a[1], in, env, D), LAMBDA n :
              IF IsU(n) \/ (r # <<>> /\ Cols(r) = 0) THEN Dunno
              ELSE IF UInt(n) < 0 \/ UInt(n) >= Len(r) THEN Err
              ELSE LET row == r[UInt(n) + 1]
                   IN IF \E j \in 1..Len(row) : TyOf(row[j]) # TStr THEN Err
                      ELSE Sub(<<row>> \o SubSeq(r, UInt(n) + 2, Len(r))))
      [] b.o = "rev" -> IF Has(b, "cols") THEN Sub([i \in 1..Len(r) |-> Reverse(r[i])])
                        ELSE Sub(IF r = <<>> THEN r ELSE <<r[1]>> \o Reverse(Tail(r)))
      [] b.o = "skip" -> WithCount(b, in, env, D, LAMBDA n : Sub(Keep(r, LAMBDA i : i = 1 \/ i > n + 1)))
      [] b.o = "take" -> WithCount(b, in, env, D, LAMBDA n : Sub(Keep(r, LAMBDA i : i = 1 \/ i <= n + 1)))
      [] b.o = "sort" ->
            Bind(Indices(b, r, env, D), LAMBDA ix :
              IF 0 \in Range(ix) THEN Err
              ELSE IF \E i \in Body(r) : \E j \in 1..Len(ix) : IsU(r[i][ix[j]]) THEN Dunno
              ELSE LET RECURSIVE S(_, _)
                       S(o, j) == IF j > Len(ix) THEN o
                                  ELSE S(SortBy(o, LAMBDA x, y : CanonCmp(r[x][ix[j]], r[y][ix[j]])), j + 1)
                       o == S([i \in 1..nrow |-> i + 1], 1)
                   IN Sub(<<r[1]>> \o [i \in 1..nrow |-> r[o[i]]]))
      [] b.o = "sort-by" ->
            IF r = <<>> THEN Ok(in)
            ELSE Bind(OnRows(b.a[1], r, env, D), LAMBDA ks :
              IF \E i, j \in Body(r) : Cmp(ks[i], ks[j]) = 2 THEN Dunno
              ELSE LET o == SortBy([i \in 1..nrow |-> i + 1], LAMBDA x, y : Cmp(ks[x], ks[y]))
                   IN Sub(<<r[1]>> \o [i \in 1..nrow |-> r[o[i]]]))
      [] OTHER -> Dunno

(* is the variable x surely read by the blocks? ($row is rebound by fold and map; arguments of calls to
   definitions may go unused) *)
RECURSIVE Reads(_, _, _, _)
RECURSIVE ReadsArg(_, _, _)
ReadsArg(a, x, D) == CASE a.k = "v" -> a.x = x
                       [] a.k = "d" -> ReadsArg(a.l, x, D)
                       [] a.k = "e" -> Reads(a.e, 1, x, D)
                       [] OTHER -> FALSE
Reads(e, i, x, D) ==
    IF i > Len(e) THEN FALSE
    ELSE LET b == e[i] IN
      IF b.o = "let"
      THEN LET m == Len(b.a) \div 2
           IN \/ \E j \in 1..m : ReadsArg(b.a[2 * j - 1], x, D)
              \/ /\ \A j \in 1..m : b.a[2 * j] # [k |-> "v", x |-> x]
                 /\ (Len(b.a) % 2 = 1 => b.a[Len(b.a)].x # x)
                 /\ Reads(e, i + 1, x, D)
      ELSE \/ /\ \A j \in 1..Len(D.d) : D.d[j].n # b.o
              /\ ~(x = "row" /\ b.o \in {"fold", "fold-while", "map"})
              /\ \E j \in 1..Len(b.a) : ReadsArg(b.a[j], x, D)
           \/ Reads(e, i + 1, x, D)

(* a call: plain parameters are bound to their values in the caller's scope, an expression parameter
   keeps the argument together with that scope; the body sees the parameters and nothing else.
   The argument of a parameter that the body does not read need not be evaluated *)
RECURSIVE BindParams(_, _, _, _, _, _)
BindParams(ps, as, i, in, env, D) ==
    IF i > Len(ps) THEN Ok(None)
    ELSE LET r == IF ps[i].k = "expr" THEN Ok([t |-> "Clo", a |-> as[i], env |-> env, D |-> D])
                  ELSE Arg(as[i], in, env, D)
         IN IF r.k # "ok" THEN r
            ELSE LET q == BindParams(ps, as, i + 1, in, env, D)
                 IN IF q.k # "ok" THEN q ELSE Ok(q.v @@ (ps[i].x :> r.v))
Call(u, b, in, env, D) ==
    LET d == D.d[u]
        e == BindParams(d.p, b.a, 1, in, env, D)
    IN IF e.k # "ok"
       THEN IF \A i \in 1..Len(d.p) : d.p[i].k = "expr" \/ Reads(d.b, 1, d.p[i].x, D) THEN e ELSE Dunno
       ELSE Blocks(d.b, 1, in, e.v, Hide(D, u))

MkRange(x, y) == IF x < 0 \/ y < 0 THEN Err
                 ELSE IF y - x > 200 THEN Dunno
                 ELSE Ok(Tb(<<<<St(<<105>>)>>>> \o [i \in 1..MaxN(0, y - x) |-> <<Whole(x + i - 1)>>]))

Block(b, in, env, D) ==
    LET u == Lookup(D, b.o, TyOf(in))
        c == Ctors(D, b.o)
    IN
    IF u # 0 THEN Call(u, b, in, env, D)
    ELSE IF c # {}
    THEN LET ij == CHOOSE x \in c : TRUE
         IN Bind(Args(b.a, in, env, D), LAMBDA vs : Ok(Df(D.t[ij[1]].n, ij[2] - 1, vs)))
    ELSE
    CASE b.o = "\\" -> Arg(b.a[1], in, env, D)
      [] b.o = "." -> Arg([k |-> "d", l |-> b.a[1], f |-> b.nm[1], ty |-> b.ty], in, env, D)
      [] b.o = "get" ->
            IF in.t = "Row"
            THEN Bind(Arg(b.a[1], NilV, env, D), LAMBDA nm :
                   IF IsU(nm) THEN Dunno ELSE
                   LET j == ColIdx(<<in.h>>, nm.s)
                   IN IF j = 0 THEN Err
                      ELSE IF Len(b.a) = 2
                      THEN \* the default is a value of the wanted type, used when the cell has another
                           LET v == Arg(b.a[2], NilV, env, D)
                           IN IF v.k # "ok" THEN Dunno ELSE IF TyOf(in.r[j]) = TyOf(v.v) THEN Ok(in.r[j]) ELSE v
                      ELSE RowGet(in, nm.s, b.ty))
            ELSE IF in.t = "Def" THEN DefGet(in, b.a[1].s, D)
            ELSE GetField(in, b.a[1].s)
      [] b.o \in {"and", "or"} -> LogicFold(b.o, b.a, in, env, D)
      [] b.o = "not" -> Ok(Bl(~in.b))
      [] b.o = "if" -> IfChain(b.a, 1, in, env, D)
      [] in.t = "Nil" /\ (b.o = "cmp" \/ b.o \in CmpOps) ->      \* all Nil are equal: the argument may go unused
            LET a == Arg(b.a[1], in, env, D)
            IN IF a.k # "ok" THEN Dunno ELSE IF b.o = "cmp" THEN Ok(Od("eq")) ELSE CmpOp(b.o, in, NilV)
      [] b.o = "cmp" -> Bind(Arg(b.a[1], in, env, D), LAMBDA v : LET x == Cmp(in, v) IN IF x = 2 THEN Dunno ELSE Ok(OrdOf(x)))
      [] b.o \in CmpOps -> Bind(Arg(b.a[1], in, env, D), LAMBDA v : CmpOp(b.o, in, v))
      [] b.o \in {"Ord::Lt", "Ord::Eq", "Ord::Gt"} -> Ok(Od(OrdCtor(b.o)))
      [] b.o = "Tuple" -> Bind(Args(b.a, in, env, D), LAMBDA vs : Ok(Tp(vs)))
      [] b.o = "Table" -> Bind(Args(b.a, in, env, D), LAMBDA vs : Ok(Tb(IF vs = <<>> THEN <<>> ELSE <<vs>>)))
      [] b.o = "range" ->
            Bind(Args(b.a, in, env, D), LAMBDA vs :
              LET ws == IF Len(vs) = 1 THEN vs \o <<in>> ELSE vs
              IN IF IsU(ws[1]) \/ IsU(ws[2]) THEN Dunno ELSE MkRange(UInt(ws[1]), UInt(ws[2])))
      [] b.o = "to-str" /\ in.t \notin {"Str", "Num", "Unk"} ->
            IF in.t = "Bool" THEN Bind(CellStr(in), LAMBDA s : Ok(St(s))) ELSE Ok(Unk(TStr))
      [] in.t = "Num" -> OnNum(b, in, env, D)
      [] in.t = "Str" -> OnStr(b, in, env, D)
      [] in.t = "Tab" -> OnTab(b, in, env, D)
      [] in.t = "Unk" /\ in.y = TNum -> OnNum(b, in, env, D)
      [] OTHER -> Dunno

--------------------------------------------------------------------------------
(* Types. `te` maps variables to [c |-> FALSE, ty] or, for an expression parameter, [c |-> TRUE, a, te, D]. *)
RECURSIVE TBlocks(_, _, _, _, _)
RECURSIVE TBlock(_, _, _, _)
RECURSIVE TArg(_, _, _, _)
RECURSIVE TLet(_, _, _, _, _)

TNone == [x \in {} |-> NilV]
TVal(ty) == [c |-> FALSE, ty |-> ty]
TypeOf(e, ty, D) == TBlocks(e, 1, ty, TNone, [loose |-> FALSE] @@ D)
(* as above, but the arguments of parameters that are not read are not looked at *)
LooseTypeOf(e, ty, D) == TBlocks(e, 1, ty, TNone, [loose |-> TRUE] @@ D)

(* one name bound twice in the same let, with different types (nobody can tell in a last block) *)
Clash(a, in, te, D) ==
    LET m == (Len(a) + 1) \div 2
        ty == TLCEval([j \in 1..m |-> IF 2 * j > Len(a) THEN in ELSE TArg(a[2 * j - 1], in, te, D)])
        x == [j \in 1..m |-> IF 2 * j > Len(a) THEN a[Len(a)].x ELSE a[2 * j].x]
    IN \E j, k \in 1..m : j < k /\ x[j] = x[k] /\ ty[j] # ty[k]
Noted(an, ty) == IF an = <<>> \/ an = ty THEN ty ELSE Bad     \* an annotation only ever rejects
TBlocks(e, i, in, te, D) ==
    IF in = Bad THEN Bad
    ELSE IF i > Len(e) THEN in
    ELSE IF e[i].o = "let"
    THEN LET b == TLet(e[i].a, 1, in, te, D)
         IN IF b.bad \/ (i < Len(e) /\ Clash(e[i].a, in, te, D)) THEN Bad ELSE TBlocks(e, i + 1, in, b.te @@ te, D)
    ELSE TBlocks(e, i + 1, Noted(e[i].an, TBlock(e[i], in, te, D)), te, D)

TLet(a, i, in, te, D) ==
    IF i > Len(a) THEN [bad |-> FALSE, te |-> TNone]
    ELSE IF i = Len(a) THEN IF a[i].k = "v" THEN [bad |-> FALSE, te |-> (a[i].x :> TVal(in))] ELSE [bad |-> TRUE]
    ELSE LET t == TArg(a[i], in, te, D)
             q == TLet(a, i + 2, in, te, D)
         IN IF t = Bad \/ a[i + 1].k # "v" \/ q.bad THEN [bad |-> TRUE]
            ELSE [bad |-> FALSE, te |-> q.te @@ (a[i + 1].x :> TVal(t))]

TField(ty, f, want, D) ==
    CASE ty[1] = "Row" -> IF want = <<>> THEN Bad ELSE want
      [] ty[1] = "Tup" -> LET j == TupField(f, Len(ty) - 1) IN IF j = 0 THEN Bad ELSE ty[j + 1]
      [] ty[1] = "Def" -> LET d == DefTy(D, ty[2])
                              j == IF d.sum THEN 0 ELSE FieldNo(d.v[1].f, f)
                          IN IF j = 0 THEN Bad ELSE d.v[1].f[j].ty
      [] OTHER -> Bad

TArg(a, sup, te, D) ==
    CASE a.k = "n" -> TNum
      [] a.k = "s" -> TStr
      [] a.k = "i" -> sup
      [] a.k = "nil" -> TNil
      [] a.k \in {"t", "f"} -> TBool
      [] a.k = "b" -> TStr
      [] a.k = "v" -> IF a.x \notin DOMAIN te THEN Bad
                      ELSE IF te[a.x].c THEN TArg(te[a.x].a, sup, te[a.x].te, te[a.x].D) ELSE te[a.x].ty
      [] a.k = "e" -> Noted(a.an, TBlocks(a.e, 1, sup, te, D))
      [] a.k = "d" -> LET l == TArg(a.l, sup, te, D) IN IF l = Bad THEN Bad ELSE TField(l, a.f, a.ty, D)
      [] OTHER -> Bad

All(as, sup, te, D, ty) == as # <<>> /\ \A i \in 1..Len(as) : TArg(as[i], sup, te, D) = ty
Good(as, sup, te, D) == \A i \in 1..Len(as) : TArg(as[i], sup, te, D) # Bad
RowEnv(te) == ("row" :> TVal(TRow)) @@ te
If(c, ty) == IF c THEN ty ELSE Bad
TCount(b, in, te, D, n) == Len(b.a) = n /\ TArg(b.a[1], in, te, D) = TNum

RECURSIVE TParams(_, _, _, _, _, _)
TParams(d, as, i, in, te, D) ==
    IF i > Len(d.p) THEN [bad |-> FALSE, te |-> TNone]
    ELSE LET q == TParams(d, as, i + 1, in, te, D)
             t == IF d.p[i].k = "expr" THEN TNil ELSE TArg(as[i], in, te, D)
             wrong == t = Bad \/ (d.p[i].k # "expr" /\ d.p[i].ty # <<>> /\ d.p[i].ty # t)
         IN IF q.bad \/ (wrong /\ (~D.loose \/ Reads(d.b, 1, d.p[i].x, D))) THEN [bad |-> TRUE]
            ELSE [bad |-> FALSE, te |-> q.te @@ (d.p[i].x :> IF d.p[i].k = "expr"
                                                            THEN [c |-> TRUE, a |-> as[i], te |-> te, D |-> D] ELSE TVal(t))]
TCall(u, b, in, te, D) ==
    LET d == D.d[u] IN
    IF Len(d.p) # Len(b.a) THEN Bad
    ELSE LET p == TParams(d, b.a, 1, in, te, D)
         IN IF p.bad THEN Bad ELSE TBlocks(d.b, 1, in, p.te, Hide(D, u))

TStrOp(b, in, te, D) ==
    CASE b.o = "+" -> If(All(b.a, in, te, D, TStr), TStr)
      [] b.o = "len" -> If(b.a = <<>>, TNum)
      [] b.o = "empty" -> If(b.a = <<>>, TBool)
      [] b.o \in {"rev", "dedup", "last", "to-str"} -> If(b.a = <<>>, TStr)
      [] b.o \in {"nth", "skip", "take"} -> If(TCount(b, in, te, D, 1), TStr)
      [] b.o = "filter" -> If(Len(b.a) = 1 /\ All(b.a, TStr, te, D, TBool), TStr)
      [] OTHER -> Bad
TNumOp(b, in, te, D) ==
    CASE b.o \in {"+", "-", "*", "/", "max", "min"} -> If(All(b.a, in, te, D, TNum), TNum)
      [] b.o \in {"floor", "ceil", "abs"} -> If(b.a = <<>>, TNum)
      [] b.o = "is-finite" -> If(b.a = <<>>, TBool)
      [] b.o = "mod" -> If(Len(b.a) = 1 /\ All(b.a, in, te, D, TNum), TNum)
      [] b.o = "to-str" -> If(b.a = <<>>, TStr)
      [] OTHER -> Bad
TTabOp(b, in, te, D) ==
    CASE b.o = "len" -> If(b.a = <<>>, TNum)
      [] b.o = "empty" -> If(b.a = <<>>, TBool)
      [] b.o = "+" -> If(All(b.a, in, te, D, TTab), TTab)
      [] b.o = "append" -> If(b.a # <<>> /\ Good(b.a, TRow, te, D), TTab)
      [] b.o = "append-row" -> If(Good(b.a, in, te, D), TTab)
      [] b.o = "dedup" -> If(b.a = <<>> \/ All(b.a, TNil, te, D, TStr), TTab)
      [] b.o = "filter" ->
            IF Has(b, "cols") THEN If(Len(b.a) = 1 /\ All(b.a, TStr, te, D, TBool), TTab)
            ELSE IF Len(b.a) = 1 THEN If(All(b.a, TRow, te, D, TBool), TTab)
            ELSE If(Len(b.a) = 2 /\ TArg(b.a[1], TNil, te, D) = TStr
                    /\ TArg(b.a[2], IF b.ty = <<>> THEN TNum ELSE b.ty, te, D) = TBool, TTab)
      [] b.o = "fold" ->
            IF Len(b.a) # 2 THEN Bad
            ELSE LET t == TArg(b.a[1], TNil, te, D)
                 IN If(t # Bad /\ TArg(b.a[2], t, RowEnv(te), D) = t, t)
      [] b.o = "fold-while" ->
            IF Len(b.a) # 3 THEN Bad
            ELSE LET t == TArg(b.a[1], TNil, te, D)
                 IN If(t # Bad /\ TArg(b.a[2], t, RowEnv(te), D) = TBool /\ TArg(b.a[3], t, RowEnv(te), D) = t, t)
      [] b.o = "grp" -> If(All(b.a, TNil, te, D, TStr), TTab)
      [] b.o \in {"grp-by", "sort-by"} -> If(Len(b.a) = 1 /\ Comparable(TArg(b.a[1], TRow, te, D)), TTab)
      [] b.o = "map" ->
            If(Len(b.a) = 2 /\ TArg(b.a[1], TNil, te, D) = TStr
               /\ TArg(b.a[2], IF Has(b, "force") THEN TNil ELSE IF b.ty = <<>> THEN TNum ELSE b.ty, RowEnv(te), D) # Bad, TTab)
      [] b.o = "nth" -> IF TCount(b, in, te, D, 2) THEN TArg(b.a[2], TRow, te, D) ELSE Bad
      [] b.o = "last" -> IF Len(b.a) = 1 THEN TArg(b.a[1], TRow, te, D) ELSE Bad
      [] b.o = "pick" -> If(All(b.a, TNil, te, D, TStr), TTab)
      [] b.o = "ren" -> If(Len(b.a) % 2 = 0 /\ \A i \in 1..Len(b.a) :
                              TArg(b.a[i], TNil, te, D) \in (IF i % 2 = 1 THEN {TNum, TStr} ELSE {TStr}), TTab)
      [] b.o = "ren-with" -> If(TCount(b, TNil, te, D, 2)
                                /\ TArg(b.a[2], IF b.ty = <<>> THEN TStr ELSE b.ty, te, D) = TStr, TTab)
      [] b.o = "skip-hdrs" -> If(TCount(b, in, te, D, 1), TTab)
      [] b.o = "rev" -> If(b.a = <<>>, TTab)
      [] b.o \in {"skip", "take"} -> If(TCount(b, in, te, D, 1), TTab)
      [] b.o = "sort" -> If(All(b.a, TNil, te, D, TStr), TTab)
      [] OTHER -> Bad

(* the flags an operation knows *)
FlagsOk(b, in) ==
    /\ b.ty # <<>> => b.o \in {"get", ".", "filter", "map", "ren-with"}
    /\ b.ty # <<>> /\ b.o = "filter" => in = TTab /\ Len(b.a) = 2 /\ ~Has(b, "cols")
    /\ b.nm # <<>> => b.o \in {"append", "."}
    /\ Range(b.f) \subseteq CASE b.o = "+" /\ in = TTab -> {"cols", "union", "intersect"}
                             [] b.o \in {"len", "rev", "filter"} /\ in = TTab -> {"cols"}
                             [] b.o = "map" -> {"force"}
                             [] b.o = "pick" -> {"add", "trail"}
                             [] OTHER -> {}
TBlock(b, in, te, D) ==
    IF ~FlagsOk(b, in) THEN Bad ELSE
    LET u == Lookup(D, b.o, in)
        c == Ctors(D, b.o)
    IN
    IF u # 0 THEN TCall(u, b, in, te, D)
    ELSE IF c # {}
    THEN LET ij == CHOOSE x \in c : TRUE
             fs == D.t[ij[1]].v[ij[2]].f
         IN If(Len(fs) = Len(b.a) /\ \A i \in 1..Len(fs) : TArg(b.a[i], in, te, D) = fs[i].ty, TDef(D.t[ij[1]].n))
    ELSE
    CASE b.o = "\\" -> IF Len(b.a) = 1 THEN TArg(b.a[1], in, te, D) ELSE Bad
      [] b.o = "." -> TArg([k |-> "d", l |-> b.a[1], f |-> b.nm[1], ty |-> b.ty], in, te, D)
      [] b.o = "get" ->
            IF in = TRow
            THEN IF Len(b.a) \notin {1, 2} \/ TArg(b.a[1], TNil, te, D) # TStr THEN Bad
                 ELSE IF Len(b.a) = 2 THEN TArg(b.a[2], TNil, te, D)
                 ELSE IF b.ty = <<>> THEN Bad ELSE b.ty
            ELSE IF Len(b.a) = 1 /\ b.a[1].k = "s" THEN TField(in, b.a[1].s, <<>>, D) ELSE Bad
      [] b.o \in {"and", "or"} -> If(All(b.a, in, te, D, TBool), TBool)
      [] b.o = "not" -> If(in = TBool /\ b.a = <<>>, TBool)
      [] b.o = "if" ->
            IF Len(b.a) % 2 = 0 THEN Bad
            ELSE LET t == TArg(b.a[Len(b.a)], in, te, D)
                 IN If(\A i \in 1..(Len(b.a) - 1) : TArg(b.a[i], in, te, D) = (IF i % 2 = 1 THEN TBool ELSE t), t)
      [] b.o = "cmp" -> If(Comparable(in) /\ Len(b.a) = 1 /\ TArg(b.a[1], in, te, D) = in, TOrd)
      [] b.o \in CmpOps -> If(Comparable(in) /\ Len(b.a) = 1 /\ TArg(b.a[1], in, te, D) = in, TBool)
      [] b.o \in {"Ord::Lt", "Ord::Eq", "Ord::Gt"} -> If(b.a = <<>>, TOrd)
      [] b.o = "Tuple" -> LET ts == TLCEval([i \in 1..Len(b.a) |-> TArg(b.a[i], in, te, D)])
                          IN If(Len(b.a) >= 2 /\ \A i \in 1..Len(ts) : ts[i] # Bad, TTup(ts))
      [] b.o = "Table" -> If(b.a = <<>> \/ All(b.a, in, te, D, TStr), TTab)
      [] b.o = "range" -> If(All(b.a, in, te, D, TNum) /\ (Len(b.a) = 2 \/ (Len(b.a) = 1 /\ in = TNum)), TTab)
      [] b.o = "to-str" /\ in \notin {TStr, TNum} -> If(b.a = <<>>, TStr)
      [] in = TNum -> TNumOp(b, in, te, D)
      [] in = TStr -> TStrOp(b, in, te, D)
      [] in = TTab -> TTabOp(b, in, te, D)
      [] OTHER -> Bad

--------------------------------------------------------------------------------
(* is a value as recorded one the specification allows? *)
RECURSIVE Eqv(_, _)
Eqv(s, v) == IF s.t = "Unk" THEN IF v.t = "Unk" THEN s.y = TNum ELSE s.y = <<v.t>>
             ELSE IF s.t # v.t THEN FALSE
             ELSE CASE s.t = "Tab" -> Len(s.r) = Len(v.r) /\ \A i \in 1..Len(s.r) :
                                        Len(s.r[i]) = Len(v.r[i]) /\ \A j \in 1..Len(s.r[i]) : Eqv(s.r[i][j], v.r[i][j])
                    [] s.t = "Row" -> Eqv(Tb(<<s.h, s.r>>), Tb(<<v.h, v.r>>))
                    [] s.t = "Tup" -> Len(s.f) = Len(v.f) /\ \A i \in 1..Len(s.f) : Eqv(s.f[i], v.f[i])
                    [] s.t = "Def" -> s.n = v.n /\ s.i = v.i /\ Len(s.f) = Len(v.f)
                                      /\ \A i \in 1..Len(s.f) : Eqv(s.f[i], v.f[i])
                    [] OTHER -> s = v
=============================================================================
