----------------------------- MODULE HashTrace -----------------------------
(* Hash functions as a table filled by their calls.  A batch asks for the     *)
(* hashes of many values of one type (values as 16-bit chunks, most           *)
(* significant first; repeats allowed) and the table may only ever grow, stay *)
(* functional (equal values, equal hashes) and stay injective.                *)
EXTENDS Decimal, FiniteSets, TLC, Json, IOUtils
VARIABLES size, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Fmt(ty) == IF ty = "float" THEN Single ELSE Double
IsF(ty) == ty \in {"float", "double"}
IsU(ty) == ty \in {"bool", "uchar", "ushort", "uint", "ulong", "ullong", "nullptr"}
Zeros(w) == [i \in 1..Len(w) |-> 0]
\* the mathematical value a pattern stands for: patterns of equal values coincide
Canon(ty, w) == IF IsF(ty) /\ IsZero(Fmt(ty), Unpack(Fmt(ty), w)) THEN Zeros(w) ELSE w
Nan(ty, w) == IsF(ty) /\ IsNaN(Fmt(ty), Unpack(Fmt(ty), w))
HashOK(e) ==
    LET n == Len(e.q)
        I == {i \in 1..n : ~Nan(e.ty, e.q[i])}
        vals == {Canon(e.ty, e.q[i]) : i \in I}
        hs == {e.res[i] : i \in I}
        tab == {<<Canon(e.ty, e.q[i]), e.res[i]>> : i \in I}
    IN /\ Len(e.res) = n
       /\ Cardinality(tab) = Cardinality(vals)          \* a function of the value
       /\ Cardinality(hs) = Cardinality(vals)           \* distinct values, distinct hashes
       /\ Cardinality({<<e.q[i], e.res[i]>> : i \in 1..n}) = Cardinality({e.q[i] : i \in 1..n})   \* the same call, the same answer
\* ---- order -----------------------------------------------------------------
Ge2(w) == w[1] >= 32768
LexLess(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Mag(w) == [w EXCEPT ![1] = IF @ >= 32768 THEN @ - 32768 ELSE @]
\* bytes arrive sign extended to 16 bits, so two's complement works for them as well
SLess(a, b) == IF Ge2(a) = Ge2(b) THEN LexLess(a, b) ELSE Ge2(a)
Less(ty, a, b) ==
    IF ty = "rev" THEN SLess(b, a)           \* a class whose own order is reversed
    ELSE IF IsF(ty) THEN
        IF Nan(ty, a) \/ Nan(ty, b) THEN FALSE
        ELSE IF Mag(a) = Zeros(a) /\ Mag(b) = Zeros(b) THEN FALSE
        ELSE IF Ge2(a) # Ge2(b) THEN Ge2(a)
        ELSE IF Ge2(a) THEN LexLess(Mag(b), Mag(a)) ELSE LexLess(Mag(a), Mag(b))
    ELSE IF IsU(ty) THEN LexLess(a, b) ELSE SLess(a, b)
LessOK(e) == \A i \in 1..Len(e.q) : e.res[i] = (IF Less(e.ty, e.q[i][1], e.q[i][2]) THEN 1 ELSE 0)
OK(e) == CASE e.op = "reset" -> TRUE
           [] e.op = "hash" -> HashOK(e)
           [] e.op = "less" -> LessOK(e)
           [] OTHER -> FALSE
TraceInit == size = 0 /\ l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace)
             /\ OK(Trace[l]) /\ size' = size + Len(Trace[l].res)
             /\ TLCSet(1, l)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<size, l>>
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
