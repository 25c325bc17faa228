----------------------------- MODULE TypesTrace -----------------------------
(* Each recorded row names the type the compiler saw (as the harness's own  *)
(* reflection prints it) and what every trait yielded for it.               *)
EXTENDS TypePairs, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
RowOK(e) == \/ e.op = "reset"
            \/ e.op = "row" /\ e.st = e._tt /\ e.res = Row(e._tt)
            \/ e.op = "pair" /\ e.st = <<e._ff, e._tt>> /\ e.res = PairRow(e._ff, e._tt)
            \/ e.op = "store" /\ StoreOK(e._n, e._k, e.res[1], e.res[2])
TraceInit == l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace)
             /\ RowOK(Trace[l])
             /\ TLCSet(1, l)
             /\ l' = l + 1
TraceSpec == TraceInit /\ PInit /\ [][TraceNext /\ UNCHANGED <<vars, src>>]_<<vars, src, l>>
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
