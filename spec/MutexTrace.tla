----------------------------- MODULE MutexTrace ------------------------------
EXTENDS Conc, Mutex
MAbs0(par) == MInit(par[1])
MExtra(s, e) == {}
MTimeout(p) == -1
=============================================================================
