----------------------------- MODULE AtomicTrace -----------------------------
EXTENDS Conc, Atomic
AAbs0(par) == par[1]
AExtra(s, e) == {}
ATimeout(p) == -1
=============================================================================
