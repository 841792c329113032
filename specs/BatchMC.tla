------------------------------ MODULE BatchMC ------------------------------
EXTENDS Batch, IOUtils
X(k, op, n, a, need) == [k |-> k, op |-> op, n |-> n, a |-> a, need |-> need]
MCKinds == <<X("ty", "", "A", 0, <<>>), X("ty", "", "B", 0, <<"A">>), X("im", "", "f", 1, <<>>), X("im", "", "get", 0, <<>>),
             X("ex", "ok", "", 0, <<>>), X("ex", "no", "", 0, <<>>), X("ex", "call", "f", 1, <<>>), X("ex", "con", "B", 0, <<>>),
             X("ex", "wait", "", 0, <<>>)>>
MCMax == atoi(IOEnv.LEN)
=============================================================================
