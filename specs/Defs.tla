--------------------------------- MODULE Defs ---------------------------------
(* The registry of definitions (C23): what is defined after a history of defining, redefining, loading
   files and clearing; which definition a call uses; what the call gives.

   A key <<name, type>> names one command for one input type, type "" any other input.  Values are
   [t, f]: Num with f = <<n>>, Str with f the code points, a value of a user type with f = the constructor's
   number and its fields (numbers).  A body is a sequence of atoms [o, a], a command and its arguments; an
   argument is [k |-> "n", n] or the parameter [k |-> "x"].                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Bi            \* keys of the built-in commands
BaseTypes == {"Nil", "Bool", "Num", "Str", "Table", "TableRow", "Ord"}
BiNames == {k[1] : k \in Bi}

VARIABLES im,          \* user commands: key -> [w, loc, line, p, b]; w "def", or the type a constructor belongs to
          ty           \* user types: name -> [loc, v]; v a sequence of variants [c, n], c the constructor, n its number of fields
vars == <<im, ty>>
Empty == <<>>
st == [im |-> im, ty |-> ty]
Keys(s) == DOMAIN s.im
Names(s) == BiNames \union {k[1] : k \in Keys(s)}
Types(s) == BaseTypes \union DOMAIN s.ty

--------------------------------------------------------------------------------
(* the operations; each gives the new state, or the same state when it is refused *)
Refused(s) == [ok |-> FALSE, s |-> s]
Done(s) == [ok |-> TRUE, s |-> s]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

\* d: [n, ty, p, b, loc, line, bad]; bad: it is not a definition at all
Def(s, d) ==
    LET key == <<d.n, d.ty>> IN
    IF \/ d.bad
       \/ d.ty # "" /\ d.ty \notin Types(s)
       \/ key \in Bi                                                  \* a built-in command is not replaced
       \/ key \in Keys(s) /\ s.im[key].w # "def"                      \* nor is a constructor
       \/ \E i \in 1..Len(d.b) : d.b[i].o \notin Names(s)             \* a body of known commands (there is no recursion)
    THEN Refused(s)
    ELSE Done([s EXCEPT !.im = (key :> [w |-> "def", loc |-> d.loc, line |-> d.line, p |-> d.p, b |-> d.b, src |-> d.src]) @@ @])

\* t: [n, v, fs, loc, line, bad], fs the types of the fields
DefTy(s, t) ==
    LET cs == {t.v[i].c : i \in 1..Len(t.v)} IN
    IF \/ t.bad
       \/ t.n \in Types(s)
       \/ \E i \in 1..Len(t.fs) : t.fs[i] \notin Types(s)
       \/ Cardinality(cs) < Len(t.v)                                  \* every constructor once
       \/ \E c \in cs : <<c, "">> \in Bi \union Keys(s)               \* a constructor replaces nothing
    THEN Refused(s)
    ELSE Done([im |-> [k \in {<<c, "">> : c \in cs} |-> [w |-> t.n, loc |-> t.loc, line |-> t.line, p |-> 0, b |-> <<>>, src |-> <<>>]] @@ s.im,
               ty |-> (t.n :> [loc |-> t.loc, v |-> t.v]) @@ s.ty])

Clear(s, files) == LET Goes(r) == r.loc # "shell" \/ ~files
                   IN Done([im |-> Without(s.im, {k \in DOMAIN s.im : Goes(s.im[k])}),
                            ty |-> Without(s.ty, {n \in DOMAIN s.ty : Goes(s.ty[n])})])

\* a file: its types, then its definitions, up to the first that is refused; nothing of it if a type has no name
RECURSIVE LoadFrom(_, _, _)
LoadFrom(s, xs, i) == IF i > Len(xs) THEN Done(s)
                      ELSE LET r == IF xs[i].w = "ty" THEN DefTy(s, xs[i]) ELSE Def(s, xs[i])
                           IN IF r.ok THEN LoadFrom(r.s, xs, i + 1) ELSE Refused(s)
Load(s, xs) == IF \E i \in 1..Len(xs) : xs[i].w = "ty" /\ xs[i].bad THEN Refused(s) ELSE LoadFrom(s, xs, 1)

--------------------------------------------------------------------------------
(* what a call uses: the definition for its input's type, else the built-in for it, else what is defined
   for any input.  Inside of a definition's own body that definition does not exist (no recursion): one
   for a type gives way, one for any input is an error when it is used within itself the fourth time.  *)
Nest(on, k) == Cardinality({i \in 1..Len(on) : on[i] = k})
Pick(s, o, t, on) ==
    IF <<o, t>> \in Keys(s) /\ Nest(on, <<o, t>>) = 0 THEN [k |-> "usr", key |-> <<o, t>>]
    ELSE IF <<o, t>> \in Bi THEN [k |-> "bi"]
    ELSE IF <<o, "">> \in Keys(s) THEN IF Nest(on, <<o, "">>) >= 4 THEN [k |-> "none"] ELSE [k |-> "usr", key |-> <<o, "">>]
    ELSE IF <<o, "">> \in Bi THEN [k |-> "bi"]
    ELSE [k |-> "none"]

Opaque == [t |-> "?", f |-> <<>>]
Bad == [t |-> "", f |-> <<>>]
Num(n) == [t |-> "Num", f |-> <<n>>]
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE Dig(n \div 10) \o <<48 + (n % 10)>>
Arg(a, x) == IF a.k = "n" THEN a.n ELSE x          \* x = -1: no parameter
BiCall(o, as, in) ==
    CASE o = "\\" /\ Len(as) = 1 -> Num(as[1])
      [] o = "+" /\ Len(as) = 1 /\ in.t = "Num" -> Num(in.f[1] + as[1])
      [] o = "*" /\ Len(as) = 1 /\ in.t = "Num" -> Num(in.f[1] * as[1])
      [] o = "len" /\ as = <<>> /\ in.t = "Str" -> Num(Len(in.f))
      [] o = "rev" /\ as = <<>> /\ in.t = "Str" -> [in EXCEPT !.f = [i \in 1..Len(@) |-> @[Len(@) - i + 1]]]
      [] o = "to-str" /\ as = <<>> /\ in.t = "Num" -> [t |-> "Str", f |-> Dig(in.f[1])]
      [] o = "to-str" /\ as = <<>> /\ in.t = "Str" -> in
      [] o = "to-str" /\ as = <<>> /\ in.t = "Nil" -> [t |-> "Str", f |-> <<45>>]
      [] o = "to-str" /\ as = <<>> -> Opaque                 \* the rendering of the values of other types: not here
      [] OTHER -> Bad

RECURSIVE Run(_, _, _, _, _, _)     \* atoms b from i on, on the input, with the parameter x, inside of the definitions `on`
Run(s, b, i, in, x, on) ==
    IF i > Len(b) \/ in.t = "?" THEN in
    ELSE LET as == [j \in 1..Len(b[i].a) |-> Arg(b[i].a[j], x)]
             p == Pick(s, b[i].o, in.t, on)
             v == IF \E j \in 1..Len(as) : as[j] = -1 THEN Bad
                  ELSE IF p.k = "none" THEN Bad
                  ELSE IF p.k = "bi" THEN BiCall(b[i].o, as, in)
                  ELSE LET r == s.im[p.key] IN
                       IF r.w = "def"
                       THEN IF Len(as) # r.p THEN Bad
                            ELSE Run(s, r.b, 1, in, IF r.p = 1 THEN as[1] ELSE -1, Append(on, p.key))
                       ELSE LET vs == s.ty[r.w].v
                                j == CHOOSE j \in 1..Len(vs) : vs[j].c = b[i].o
                            IN IF Len(as) # vs[j].n THEN Bad ELSE [t |-> r.w, f |-> <<j - 1>> \o as]
         IN IF v = Bad THEN Bad ELSE Run(s, b, i + 1, v, x, on)
Call(s, b, in) == Run(s, b, 1, in, -1, <<>>)

--------------------------------------------------------------------------------
(* exploration: the operations of a small universe *)
CONSTANTS Ds, Ts
VARIABLES op, ok
Init == im = Empty /\ ty = Empty /\ op = [op |-> "new"] /\ ok = TRUE
Do(o, r) == im' = r.s.im /\ ty' = r.s.ty /\ op' = o /\ ok' = r.ok
Next == \/ \E d \in Ds : Do([op |-> "def", d |-> d], Def(st, d))
        \/ \E t \in Ts : Do([op |-> "ty", d |-> t], DefTy(st, t))
        \/ \E f \in BOOLEAN : Do([op |-> "clear", files |-> f], Clear(st, f))
Spec == Init /\ [][Next]_<<vars, op, ok>>
View == vars

\* built-in commands are never replaced or hidden, whatever is defined
BuiltinsStay == \A k \in Bi : k[2] # "" => Pick(st, k[1], k[2], <<>>) = [k |-> "bi"]
BuiltinsKeyed == Keys(st) \cap Bi = {}
\* dispatch: exactly the one for the type, else the one for any
Dispatch == \A k \in Keys(st) : k[2] # "" => Pick(st, k[1], k[2], <<>>) = [k |-> "usr", key |-> k]
Fallback == \A k \in Keys(st) : \A t \in Types(st) \ {""} :
              k[2] = "" /\ <<k[1], t>> \notin Keys(st) \union Bi => Pick(st, k[1], t, <<>>) = [k |-> "usr", key |-> k]
\* constructors exist exactly for the types
CtorsMatch == /\ \A n \in DOMAIN ty : \A i \in 1..Len(ty[n].v) : <<ty[n].v[i].c, "">> \in DOMAIN im /\ im[<<ty[n].v[i].c, "">>].w = n
              /\ \A k \in DOMAIN im : im[k].w # "def" => im[k].w \in DOMAIN ty /\ im[k].loc = ty[im[k].w].loc
RefusedKeeps == [][~ok' /\ op'.op # "load" => UNCHANGED vars]_<<vars, op, ok>>
NewestWins == [][ok' /\ op'.op = "def" => im'[<<op'.d.n, op'.d.ty>>].b = op'.d.b]_<<vars, op, ok>>
OthersKept == [][ok' /\ op'.op # "clear" => \A k \in DOMAIN im : k \in DOMAIN im' /\ (im'[k] = im[k] \/ (op'.op = "def" /\ k = <<op'.d.n, op'.d.ty>>))]_<<vars, op, ok>>
ClearExact == [][op'.op = "clear" => DOMAIN im' = {k \in DOMAIN im : op'.files /\ im[k].loc = "shell"}]_<<vars, op, ok>>
=============================================================================
