----------------------------- MODULE RatioTrace -----------------------------
(* Recorded ratios of any size: signed numbers are <<sign, four 16-bit      *)
(* chunks>>.  Coprimality is shown by the coefficients x, y in the event    *)
(* with |num| * x - den * y = 1 (or = -1), which are checked, not trusted.  *)
EXTENDS Big, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
M(v) == FromChunks(v[2])
One == FromInt(1)
DiffIsOne(p, q) == (Cmp(p, q) > 0 /\ Sub(p, q) = One) \/ (Cmp(p, q) < 0 /\ Sub(q, p) = One)
Ok(n, d, num, den, x, y) ==
    /\ den[1] = 1
    /\ num[1] = n[1] * d[1]
    /\ Mul(M(num), M(d)) = Mul(M(n), M(den))
    /\ DiffIsOne(Mul(M(num), FromChunks(x)), Mul(M(den), FromChunks(y)))
Power(k) == TimesPow10(One, k)
RowOK(e) ==
    \/ e.op = "reset"
    \/ e.op = "ratio" /\ Ok(e._n, e._d, e.res[1], e.res[2], e._x, e._y) /\ e.res[3] = e.res[1] /\ e.res[4] = e.res[2] /\ e.res[5] = e.res[1] /\ e.res[6] = e.res[2]
    \* the SI ratios: ten to the power of e._k
    \/ e.op = "si" /\ e.res[1] = <<1, e.res[1][2]>> /\ e.res[2] = <<1, e.res[2][2]>>
                   /\ M(e.res[1]) = Power(IF e._k > 0 THEN e._k ELSE 0) /\ M(e.res[2]) = Power(IF e._k > 0 THEN 0 ELSE -e._k)
                   /\ e.res[3] = e.res[1] /\ e.res[4] = e.res[2] /\ e.res[5] = e.res[1] /\ e.res[6] = e.res[2]
TraceInit == l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace)
             /\ RowOK(Trace[l])
             /\ TLCSet(1, l)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
