---------------------------- MODULE SharedTrace -----------------------------
(* Recorded runs of the real code against Shared: the memory each operation really touched, *)
(* in words of eight bytes, in place of the footprint the specification assumes.            *)
EXTENDS Shared, IOUtils
VARIABLES l, wr, re
Trace == ndJsonDeserialize(IOEnv.TRACE)
ToSet(q) == {q[i] : i \in 1..Len(q)}
None == [t \in Threads |-> {}]
TraceInit == Init /\ l = 1 /\ wr = None /\ re = None /\ TLCSet(1, 0)
Others(f, t) == UNION {f[x] : x \in Threads \ {t}}
Judge(e) == LET w == ToSet(e.res.w) r == ToSet(e.res.r) IN
  /\ Exists(e) /\ Disciplined(e) /\ Track(e)
  /\ w \cap Others(wr, e.th) = {} /\ w \cap Others(re, e.th) = {} /\ r \cap Others(wr, e.th) = {}
  /\ wr' = [wr EXCEPT ![e.th] = @ \cup w]
  /\ re' = [re EXCEPT ![e.th] = @ \cup r]
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                IF e.op = "reset" THEN live' = [s \in Slots |-> FALSE] /\ Forget /\ wr' = None /\ re' = None
                ELSE IF e.op = "sync" THEN Forget /\ UNCHANGED live /\ wr' = None /\ re' = None
                ELSE Judge(e)
             /\ TLCSet(1, l) /\ l' = l + 1 /\ UNCHANGED <<mem, ev>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, wr, re>>
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
