--------------------------- MODULE FromCharsTrace ---------------------------
EXTENDS FromChars, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* e.how: 0 general, 1 fixed, 2 scientific, 3 general with a decimal comma; the value before the call is e.b
F(how) == CASE how = 0 -> Fmt(TRUE, TRUE, 46) [] how = 1 -> Fmt(TRUE, FALSE, 46) [] how = 2 -> Fmt(FALSE, TRUE, 46) [] how = 3 -> Fmt(TRUE, TRUE, 44)
RowOK(e) ==
    \/ e.op = "reset"
    \/ e.op = "ff" /\ AnswerOK(Single, F(e.how), e.q, e.b, e.res[1], e.res[2], e.res[3])
    \/ e.op = "fd" /\ AnswerOK(Double, F(e.how), e.q, e.b, e.res[1], e.res[2], e.res[3])
TraceInit == l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace)
             /\ RowOK(Trace[l])
             /\ TLCSet(1, l)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
