------------------------------ MODULE OgmaVoc ------------------------------
(* Vocabularies of blocks, inputs and definitions, one per property. *)
EXTENDS Integers, Sequences

B(o, a) == [o |-> o, a |-> a, f |-> <<>>, ty |-> <<>>, nm |-> <<>>, an |-> <<>>]
Fl(b, fs) == [b EXCEPT !.f = fs]
Ty(b, t) == [b EXCEPT !.ty = t]
Nam(b, ns) == [b EXCEPT !.nm = ns]
An(b, t) == [b EXCEPT !.an = t]
N(x) == [k |-> "n", n |-> x, d |-> 1]
Half == [k |-> "n", n |-> 1, d |-> 2]
Cp(c) == CASE c = "a" -> <<97>> [] c = "b" -> <<98>> [] c = "c" -> <<99>> [] c = "t0" -> <<116, 48>> [] c = "t1" -> <<116, 49>>
           [] c = "x" -> <<120>> [] c = "y" -> <<121>> [] c = "" -> <<>> [] c = "ba" -> <<98, 97>> [] c = "i" -> <<105>> [] c = "zz" -> <<122, 122>>
           [] OTHER -> <<63>>
S(c) == [k |-> "s", s |-> Cp(c)]
I == [k |-> "i"]
T == [k |-> "t"]
F == [k |-> "f"]
V(x) == [k |-> "v", x |-> x]
E1(b) == [k |-> "e", an |-> <<>>, e |-> <<b>>]
E2(b, c) == [k |-> "e", an |-> <<>>, e |-> <<b, c>>]
E3(b, c, d) == [k |-> "e", an |-> <<>>, e |-> <<b, c, d>>]
Dot(x, f, t) == [k |-> "d", l |-> V(x), f |-> Cp(f), ty |-> t]
Is(b) == [t |-> "Bool", b |-> b]
Nu(n) == [t |-> "Num", n |-> n, d |-> 1]
Sv(c) == [t |-> "Str", s |-> Cp(c)]
Ni == [t |-> "Nil"]
Tbl(rs) == [t |-> "Tab", r |-> rs]
NoDefs == [d |-> <<>>, t |-> <<>>]
TN == <<"Num">>   TS == <<"Str">>   TB == <<"Bool">>   TT == <<"Tab">>   TNl == <<"Nil">>   TR == <<"Row">>

Tab1 == Tbl(<<<<Sv("a"), Sv("b")>>, <<Nu(2), Sv("x")>>, <<Nu(1), Sv("y")>>, <<Nu(2), Sv("x")>>>>)
Tab2 == Tbl(<<<<Sv("b"), Sv("c")>>, <<Sv("y"), Nu(0)>>>>)
Tab3 == Tbl(<<<<Sv("a")>>, <<Nu(3)>>, <<Ni>>, <<Nu(1)>>>>)
Boom == E2(B("range", <<N(0), N(3)>>), B("nth", <<N(9), E1(Ty(B("get", <<S("a")>>), TB))>>))
BoomN == E2(B("range", <<N(0), N(3)>>), B("nth", <<N(9), E1(Ty(B("get", <<S("a")>>), TN))>>))

V20 == << B("+", <<N(2)>>), B("-", <<I, N(3)>>), B("*", <<E1(B("+", <<N(1)>>))>>), B("/", <<N(2)>>), B("max", <<N(3), Half>>),
          B("min", <<N(0)>>), B("\\", <<N(5)>>), B("\\", <<E2(B("+", <<N(1)>>), B("*", <<I>>))>>), B("Tuple", <<I, E1(B("+", <<I>>))>>),
          B("get", <<S("t1")>>), B("get", <<S("t0")>>), B("to-str", <<>>), B("len", <<>>), B("+", <<S("a"), I>>), B("rev", <<>>),
          B("floor", <<>>), B("mod", <<N(2)>>), B("=", <<I>>), B("<", <<N(3)>>), B("cmp", <<N(1)>>), B("not", <<>>), B("range", <<N(0)>>),
          B("range", <<N(1), I>>), B("fold", <<N(1), E1(B("*", <<Dot("row", "i", TN)>>))>>), B("abs", <<>>), B("+", <<I, I>>),
          B("nth", <<N(0)>>), B("skip", <<N(1)>>), B("take", <<N(1)>>), B("Table", <<S("a")>>) >>
V21 == << B("if", <<T, N(1), BoomN>>), B("if", <<F, BoomN, N(2)>>), B("if", <<E1(B(">", <<N(1)>>)), E1(B("+", <<N(1)>>)), BoomN>>),
          B("if", <<F, BoomN, T, N(3), BoomN>>), B("if", <<Boom, N(1), N(2)>>), B("if", <<F, N(1), Boom, N(2), N(3)>>),
          B("if", <<T, N(4), Boom, BoomN, BoomN>>), B("if", <<E1(B("=", <<N(1)>>)), I, E1(B("=", <<N(2)>>)), E1(B("*", <<I>>)), E1(B("-", <<N(1)>>))>>),
          B("and", <<T, F, Boom>>), B("and", <<F, Boom>>), B("and", <<T, Boom>>), B("or", <<F, T, Boom>>), B("or", <<T, Boom>>),
          B("or", <<F, F>>), B("and", <<T, T, T>>), B("or", <<Boom, T>>), B("and", <<I, E1(B("not", <<>>))>>), B("or", <<I, Boom>>), B("and", <<I, Boom>>),
          B("not", <<>>), B(">", <<N(2)>>), B("if", <<I, N(1), N(2)>>), B("+", <<N(1)>>), B("if", <<I, BoomN, N(7)>>),
          B("if", <<E1(B("or", <<T, Boom>>)), E1(B("if", <<T, N(1), BoomN>>)), BoomN>>) >>
V22 == << B("let", <<V("x")>>), B("let", <<N(1), V("x")>>), B("let", <<E1(B("+", <<N(1)>>)), V("x")>>), B("let", <<V("x"), V("y")>>),
          B("let", <<V("y"), V("x"), V("x"), V("y")>>), B("let", <<N(5), V("y"), V("x")>>), B("\\", <<V("x")>>), B("+", <<V("x")>>), B("*", <<V("y")>>),
          B("\\", <<E2(B("let", <<N(7), V("x")>>), B("+", <<V("x")>>))>>), B("+", <<E2(B("let", <<V("y")>>), B("+", <<V("y"), V("x")>>))>>),
          B("\\", <<E3(B("let", <<N(3), V("z")>>), B("let", <<E1(B("+", <<V("z")>>)), V("x")>>), B("\\", <<V("x")>>))>>),
          B("Tuple", <<V("x"), V("y")>>), B("get", <<S("t0")>>), B("\\", <<V("z")>>), B("range", <<N(0), N(3)>>),
          B("fold", <<N(0), E2(B("let", <<V("x")>>), B("+", <<V("x"), Dot("row", "i", TN)>>))>>),
          B("fold", <<V("x"), E1(B("+", <<V("x"), Dot("row", "i", TN)>>))>>),
          Ty(B("map", <<S("i"), E2(B("let", <<V("x")>>), B("+", <<V("x"), V("y")>>))>>), TN),
          B("filter", <<E3(B("let", <<E1(Ty(B("get", <<S("i")>>), TN)), V("x")>>), B("\\", <<V("x")>>), B(">", <<N(0)>>))>>), B("len", <<>>),
          B("if", <<E2(B("let", <<N(9), V("x")>>), B(">", <<V("x")>>)), V("x"), N(0)>>), B("+", <<N(1)>>) >>
P(x, t) == [x |-> x, k |-> "val", ty |-> t]
PE(x) == [x |-> x, k |-> "expr", ty |-> <<>>]
Fn(n, t, p, b) == [n |-> n, ty |-> t, p |-> p, b |-> b]
D24 == [t |-> <<>>, d |-> <<
          Fn("inc", <<>>, <<P("x", TN)>>, <<B("+", <<V("x")>>)>>),
          Fn("twice", TN, <<PE("e")>>, <<B("+", <<V("e")>>), B("*", <<V("e")>>)>>),
          Fn("over", TN, <<>>, <<B("+", <<N(100)>>)>>),
          Fn("over", TS, <<>>, <<B("len", <<>>)>>),
          Fn("over", <<>>, <<>>, <<B("\\", <<N(0)>>)>>),
          Fn("sub", TN, <<P("x", TN), P("y", TN)>>, <<B("\\", <<V("x")>>), B("-", <<V("y")>>)>>),
          Fn("swap", TN, <<P("x", TN), P("y", TN)>>, <<B("sub", <<V("y"), V("x")>>)>>),
          Fn("lets", TN, <<P("x", TN)>>, <<B("let", <<E1(B("+", <<V("x")>>)), V("y"), V("x")>>), B("\\", <<V("y")>>), B("*", <<V("x")>>)>>),
          Fn("each", TT, <<PE("p")>>, <<B("filter", <<E2(B("\\", <<V("p")>>), B(">", <<N(0)>>))>>), B("len", <<>>)>>),
          Fn("hyg", TN, <<PE("e")>>, <<B("let", <<N(50), V("x")>>), B("+", <<V("e")>>)>>) >>]
V24 == << B("inc", <<N(2)>>), B("inc", <<I>>), B("inc", <<V("x")>>), B("inc", <<E1(B("inc", <<N(1)>>))>>), B("twice", <<N(3)>>), B("twice", <<V("x")>>),
          B("twice", <<E1(B("+", <<N(1)>>))>>), B("twice", <<E1(B("twice", <<E1(B("+", <<V("x")>>))>>))>>),
          B("over", <<>>), B("over", <<N(1)>>), B("sub", <<N(9), I>>), B("sub", <<N(9)>>), B("swap", <<I, N(2)>>), B("swap", <<V("x"), E1(B("over", <<>>))>>),
          B("lets", <<N(2)>>), B("lets", <<E1(B("lets", <<I>>))>>), B("let", <<V("x")>>), B("let", <<N(4), V("x")>>), B("\\", <<V("y")>>), B("\\", <<V("x")>>),
          B("to-str", <<>>), B("range", <<N(0), N(4)>>), B("each", <<E1(Ty(B("get", <<S("i")>>), TN))>>), B("each", <<E2(Ty(B("get", <<S("i")>>), TN), B("-", <<V("x")>>))>>),
          B("hyg", <<V("x")>>), B("hyg", <<E2(B("let", <<N(1), V("x")>>), B("+", <<V("x")>>))>>), B("inc", <<S("a")>>), B("sub", <<S("a"), N(1)>>) >>
V25 == << An(B("+", <<N(1)>>), TN), An(B("+", <<N(1)>>), TS), An(B("+", <<S("a")>>), TS), An(B("to-str", <<>>), TS), An(B("len", <<>>), TN), An(B("len", <<>>), TT),
          An(B("\\", <<I>>), TN), An(B("\\", <<I>>), TT), B("\\", <<[k |-> "e", an |-> TN, e |-> <<B("+", <<N(1)>>)>>]>>), B("\\", <<[k |-> "e", an |-> TS, e |-> <<B("+", <<N(1)>>)>>]>>),
          B("+", <<S("a")>>), B("not", <<>>), B("if", <<T, N(1), S("a")>>), B("if", <<N(1), N(2), N(3)>>), B("if", <<T, I, I>>), B("=", <<N(1)>>), B("=", <<S("a")>>), B("=", <<I>>),
          B("Tuple", <<I, I>>), B("get", <<S("t0")>>), B("get", <<S("t1")>>), B("get", <<S("a")>>), An(B("Table", <<S("a")>>), TT), B("range", <<N(0), N(2)>>), B("nth", <<N(0), E1(Ty(B("get", <<S("i")>>), TN))>>),
          B("nth", <<N(0), E1(Ty(B("get", <<S("i")>>), TS))>>), B("fold", <<S("a"), E1(B("+", <<N(1)>>))>>), B("fold", <<N(1), E1(B("+", <<N(1)>>))>>), B("bogus", <<>>), B("floor", <<N(1)>>) >>
Ga(t) == E1(Ty(B("get", <<S("a")>>), t))
V26 == << B("filter", <<E2(Ty(B("get", <<S("a")>>), TN), B(">", <<N(1)>>))>>), B("filter", <<S("a"), E1(B("=", <<N(2)>>))>>), Fl(B("filter", <<E1(B("!=", <<S("b")>>))>>), <<"cols">>),
          Ty(B("map", <<S("a"), E1(B("*", <<N(10)>>))>>), TN), Ty(B("map", <<S("b"), E1(B("+", <<S("zz")>>))>>), TS), Fl(B("map", <<S("b"), E1(B("\\", <<Dot("row", "a", TN)>>))>>), <<"force">>),
          Nam(B("append", <<E2(Ty(B("get", <<S("a")>>), TN), B("+", <<N(1)>>))>>), <<Cp("c")>>), B("append", <<N(1), S("x")>>), B("append-row", <<N(7), S("b")>>), B("append-row", <<N(7)>>),
          B("dedup", <<>>), B("dedup", <<S("a")>>), B("grp", <<S("b")>>), B("grp-by", <<Ga(TN)>>), B("sort", <<S("a")>>), B("sort", <<S("b")>>), B("sort-by", <<E2(Ty(B("get", <<S("a")>>), TN), B("*", <<N(-1)>>))>>),
          B("rev", <<>>), Fl(B("rev", <<>>), <<"cols">>), B("skip", <<N(1)>>), B("take", <<N(1)>>), B("take", <<N(2)>>), B("pick", <<S("b")>>), B("pick", <<S("b"), S("a")>>), Fl(B("pick", <<S("c")>>), <<"add">>),
          Fl(B("pick", <<S("b")>>), <<"trail">>), B("ren", <<S("a"), S("b")>>), B("ren", <<N(1), S("a")>>), B("+", <<I>>), Fl(B("+", <<I>>), <<"cols">>),
          Fl(B("+", <<E1(B("rev", <<>>))>>), <<"union">>), Fl(B("+", <<E1(Fl(B("pick", <<S("b")>>), <<"add">>))>>), <<"intersect">>), B("skip-hdrs", <<N(0)>>), B("ren-with", <<N(0), E1(B("+", <<S("x")>>))>>),
          B("fold", <<N(0), E1(B("+", <<Dot("row", "a", TN)>>))>>), B("fold-while", <<N(0), E1(B("<", <<N(3)>>)), E1(B("+", <<Dot("row", "a", TN)>>))>>), B("len", <<>>), Fl(B("len", <<>>), <<"cols">>),
          B("nth", <<N(1), Ga(TN)>>), B("last", <<Ga(TN)>>), B("empty", <<>>) >>
V27 == << B("let", <<V("t")>>), B("let", <<V("t"), V("u")>>), B("let", <<E2(B("\\", <<V("t")>>), B("rev", <<>>)), V("u")>>), B("let", <<E2(B("\\", <<V("t")>>), B("sort", <<S("a")>>)), V("u")>>),
          B("let", <<E2(B("\\", <<V("u")>>), B("append-row", <<N(0), S("zz")>>)), V("t")>>), B("rev", <<>>), B("sort", <<S("a")>>), B("append", <<N(1)>>), B("append-row", <<N(9), S("y")>>),
          Ty(B("map", <<S("a"), E1(B("+", <<N(1)>>))>>), TN), B("filter", <<E2(Ty(B("get", <<S("a")>>), TN), B(">", <<N(1)>>))>>), B("ren", <<S("a"), S("c")>>), B("take", <<N(1)>>), B("skip", <<N(1)>>),
          B("dedup", <<>>), Fl(B("rev", <<>>), <<"cols">>), B("\\", <<V("t")>>), B("\\", <<V("u")>>), B("+", <<V("t")>>), B("Tuple", <<V("t"), I>>), B("Tuple", <<V("t"), V("u"), I>>), Fl(B("+", <<V("t")>>), <<"cols">>),
          Fl(B("pick", <<S("b")>>), <<"trail">>), B("skip-hdrs", <<N(0)>>), B("ren-with", <<N(0), E1(B("+", <<S("x")>>))>>) >>

VocOf(c) == CASE c = "C20" -> V20 [] c = "C21" -> V21 [] c = "C22" -> V22 [] c = "C24" -> V24 [] c = "C25" -> V25 [] c = "C26" -> V26 [] OTHER -> V27
InsOf(c) == CASE c = "C20" -> <<Nu(3), Sv("ba")>> [] c = "C21" -> <<Nu(2), Is(TRUE), Is(FALSE)>> [] c = "C22" -> <<Nu(2)>>
              [] c = "C24" -> <<Nu(3), Sv("ba"), Ni>> [] c = "C25" -> <<Nu(1), Sv("a"), Ni>>
              [] c = "C26" -> <<Tab1, Tab2, Tab3, Tbl(<<>>), Tbl(<<<<Sv("a"), Sv("b")>>>>)>> [] OTHER -> <<Tab1>>
DefsOf(c) == IF c = "C24" THEN D24 ELSE NoDefs
=============================================================================
