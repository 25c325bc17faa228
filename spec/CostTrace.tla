----------------------------- MODULE CostTrace -----------------------------
(* Recorded histories against Cost: sizes as specified, accumulated work within Limit per  *)
(* unit of accumulated weight, operations that may not draw on savings within Limit on      *)
(* their own, and the bytes held within Hold per element of the largest sizes.              *)
EXTENDS Cost, IOUtils
CONSTANTS Limit, Hold
VARIABLES l, tw, tk
Trace == ndJsonDeserialize(IOEnv.TRACE)
Spare == 4000
RECURSIVE PeakSum(_, _)
PeakSum(p, s) == IF s = 0 THEN 0 ELSE p[s] + 1 + PeakSum(p, s - 1)
Reset == [s \in Slots |-> 0]
TraceInit == Init /\ l = 1 /\ tw = 0 /\ tk = 0 /\ TLCSet(1, 0)
\* the work of an operation is reported as a whole; totals restart with each script
Judge(e) == /\ Enabled(e)
            /\ sz' = Sizes(e) /\ pk' = Peaks(e) /\ cp' = cp
            /\ did' = [op |-> e.op, w |-> Weight(e), k |-> e.res[1]]
            /\ tw' = tw + Weight(e) /\ tk' = tk + e.res[1]
            /\ tk' <= Limit * tw' + Spare
            /\ Alone(e.op) => e.res[1] <= Limit * Weight(e) + Spare
            /\ e.res[2] <= Hold * PeakSum(pk', N)
            /\ e.st.n = sz' /\ e.st.bad = 0
TraceNext == /\ l <= Len(Trace)
             /\ IF Trace[l].op = "reset"
                THEN /\ sz' = [s \in Slots |-> -1] /\ pk' = Reset /\ cp' = Reset /\ tw' = 0 /\ tk' = 0
                     /\ did' = [op |-> "start", w |-> 0, k |-> 0] /\ Trace[l].res[2] = 0
                ELSE Judge(Trace[l])
             /\ TLCSet(1, l)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, tw, tk>>
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
