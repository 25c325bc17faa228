--------------------------- MODULE MapCostTrace ---------------------------
(* Cost of map operations in key comparisons. Each trace line reports, for a map of n      *)
(* elements built in some insertion order, the largest and the total number of comparisons *)
(* of m operations. A treap with random priorities has expected depth 2 ln n and maximal   *)
(* depth below 4.4 ln n; with two comparisons per level that is below 3 log2 n on average  *)
(* and 7 log2 n at most. The limits leave a factor of about two.                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
MaxCost(n) == 14 * (Log2(n + 1) + 1)
MeanCost(n) == 6 * (Log2(n + 1) + 1)
Cheap(e) == /\ e.op \in {"insert", "again", "find", "miss", "upper", "next"} /\ e.m >= 1 /\ e.wrong = 0
            /\ e.max <= MaxCost(e.n)
            /\ e.tot <= e.m * MeanCost(e.n)
Init == l = 1 /\ TLCSet(1, 0)
Next == l <= Len(Trace) /\ Cheap(Trace[l]) /\ TLCSet(1, l) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
