---------------------------- MODULE OStreamTrace ----------------------------
EXTENDS OStream, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == OInit /\ l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace)
             /\ res' = Trace[l].res
             /\ ODo(Trace[l])
             /\ ev' = [op |-> Trace[l].op]
             /\ ProjOf = Trace[l].st
             /\ UNCHANGED cvars
             /\ TLCSet(1, l)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, cvars>>
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
