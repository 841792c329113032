------------------------------ MODULE SplitGen ------------------------------
EXTENDS Split, IOUtils, Json
MCLen == atoi(IOEnv.LEN)
Emit == PrintT(ToJson([f |-> ls]))
Voc == PrintT(ToJson([voc |-> Alphabet]))
ASSUME Voc
=============================================================================
