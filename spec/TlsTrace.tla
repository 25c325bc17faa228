------------------------------ MODULE TlsTrace -------------------------------
EXTENDS Conc, Tls
LAbs0(par) == LInit
LExtra(s, e) == {}
LTimeout(p) == -1
=============================================================================
