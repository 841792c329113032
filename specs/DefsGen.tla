------------------------------- MODULE DefsGen -------------------------------
(* Defs over a small universe; prints its transitions *)
EXTENDS Defs, Json
A(o, n) == [o |-> o, a |-> <<[k |-> "n", n |-> n]>>]
C(o) == [o |-> o, a |-> <<>>]
D(n, t, b, loc) == [w |-> "def", n |-> n, ty |-> t, p |-> 0, b |-> b, loc |-> loc, line |-> IF loc = "shell" THEN 0 ELSE 3, bad |-> FALSE, src |-> <<>>]
GBi == {<<"\\", "">>, <<"+", "Num">>, <<"len", "Str">>, <<"len", "Table">>, <<"to-str", "">>, <<"to-str", "Num">>}
GDs == {D("f", "", <<A("\\", 1)>>, "shell"), D("f", "", <<A("\\", 2)>>, "a.ogma"),
        D("f", "Num", <<A("+", 10)>>, "shell"), D("f", "Num", <<C("to-str"), C("f")>>, "a.ogma"),
        D("len", "", <<C("f"), A("+", 5)>>, "shell"), D("len", "Str", <<A("\\", 7)>>, "shell"),
        D("f", "P", <<A("\\", 4)>>, "shell"), D("f", "P", <<C("len")>>, "a.ogma"),
        D("P", "", <<A("\\", 8)>>, "shell"), D("P", "Num", <<A("\\", 9)>>, "shell")}
T(loc) == [w |-> "ty", n |-> "P", v |-> <<[c |-> "P", n |-> 1]>>, fs |-> <<"Num">>, loc |-> loc, line |-> IF loc = "shell" THEN 0 ELSE 2, bad |-> FALSE]
GTs == {T("shell"), T("a.ogma")}
Dump(i, t) == [i |-> {<<k, i[k]>> : k \in DOMAIN i}, t |-> {<<n, t[n]>> : n \in DOMAIN t}]
Emit == PrintT(ToJson([f |-> Dump(im, ty), a |-> op', t |-> Dump(im', ty')]))
=============================================================================
