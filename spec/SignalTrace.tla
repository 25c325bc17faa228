---------------------------- MODULE SignalTrace -----------------------------
EXTENDS Conc
S == INSTANCE Signal WITH Over <- Expired
SAbs0(par) == S!SInit(par[1])
SOutcomes(s, p, t, z) == S!SOut(s, p, t, z)
SExtra(s, e) == {}
STimeout(p) == IF p.o = "W" THEN p.b ELSE -1
=============================================================================
