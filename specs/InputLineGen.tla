---------------------------- MODULE InputLineGen -----------------------------
(* Prints every transition of the bounded model, for replay on the real code *)
EXTENDS InputLine, Json
Emit == PrintT(ToJson([f |-> <<buf, pos, chg>>, a |-> act', t |-> <<buf', pos', chg'>>]))
GenTexts == {<<97, 32>>}
=============================================================================
