----------------------------- MODULE ThreadTrace -----------------------------
EXTENDS Conc, Thread
TAbs0(par) == TInit({par[k] : k \in 1..Len(par)})
TTimeout(p) == -1
=============================================================================
