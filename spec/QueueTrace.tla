----------------------------- MODULE QueueTrace -----------------------------
EXTENDS Conc
Q == INSTANCE Queue WITH Over <- Expired
QAbs0(par) == Q!QInit(par[1], par[2])
QOutcomes(s, p, t, z) == Q!QOut(s, p, t, z)
QExtra(s, e) == {}
QTimeout(p) == IF p.o \in {"P", "C"} THEN p.b ELSE -1
=============================================================================
