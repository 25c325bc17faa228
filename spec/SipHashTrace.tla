---------------------------- MODULE SipHashTrace ----------------------------
EXTENDS SipHash, TLC, Json, IOUtils
VARIABLES last, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* msg, key: bytes; n: output length; res: the output bytes followed by the bytes around it (which keep their value 165)
Untouched(s) == \A i \in 1..Len(s) : s[i] = 165
OK(e) == CASE e.op = "reset" -> TRUE
           [] e.op = "sip" -> /\ SubSeq(e.res, 1, e.n) = Sip(e.k, e.q, e.n)
                              /\ Untouched(SubSeq(e.res, e.n + 1, Len(e.res)))
           [] OTHER -> FALSE
TraceInit == last = <<>> /\ l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace)
             /\ OK(Trace[l]) /\ last' = Trace[l].res
             /\ TLCSet(1, l)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<last, l>>
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
