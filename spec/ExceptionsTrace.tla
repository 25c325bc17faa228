------------------------- MODULE ExceptionsTrace -------------------------
EXTENDS Exceptions, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\ l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace)
             /\ Do(Trace[l])
             /\ ev' = [op |-> Trace[l].op]
             /\ res' = Trace[l].res
             /\ ProjOf(sl') = Trace[l].st
             /\ TLCSet(1, l)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
