---------------------------- MODULE IntSeqTrace ----------------------------
EXTENDS IntSeq, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* res: the type, and the values
Consts == {"sum", "part", "sel", "all"}
RowOK(e) ==
    IF e.op = "reset" THEN TRUE
    ELSE LET v == Value([op |-> e._op, ty |-> e._ty, q |-> e._q, p |-> e._p, i |-> e._i])
       IN /\ e.res[1] = v[1]
          /\ e.res[2] = IF e._op = "at" THEN <<>> ELSE IF e._op \in Consts THEN <<v[2]>> ELSE v[2]
          \* size() of a sequence, or that a constant converts to its value
          /\ e.res[3] = IF e._op = "at" THEN 0 ELSE IF e._op \in Consts THEN v[2] ELSE Len(v[2])
TraceInit == l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace)
             /\ RowOK(Trace[l])
             /\ TLCSet(1, l)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
