---------------------------- MODULE ConvertTrace ----------------------------
EXTENDS Convert, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\ l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace)
             /\ Do(Trace[l])
             /\ TLCSet(1, l)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
