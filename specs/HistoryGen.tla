----------------------------- MODULE HistoryGen ------------------------------
EXTENDS History, Json
Emit == PrintT(ToJson([f |-> <<entered, at>>, a |-> act', t |-> <<entered', at'>>]))
=============================================================================
