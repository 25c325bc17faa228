----------------------------- MODULE FloatTrace -----------------------------
EXTENDS Float, TLC, Json, IOUtils
VARIABLES last, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Fmt(ty) == IF ty = "float" THEN Single ELSE Double
U(e, k) == Unpack(Fmt(e.ty), e.q[k])
R(e) == Unpack(Fmt(e.ty), e.res)
\* a sweep over all fractions of one sign and exponent of float, answered by runs <<first, last, code>> of equal answers
SweepOK(e) ==
    LET n == Len(e.res)
        code(fr) == Answers(Class(Single, [sg |-> e.s, ef |-> e.n, fr |-> fr]))
    IN /\ n >= 1 /\ e.res[1][1] = 0 /\ e.res[n][2] = 8388607
       /\ \A i \in 1..(n - 1) : e.res[i + 1][1] = e.res[i][2] + 1
       /\ \A i \in 1..n : /\ e.res[i][1] = 0 => e.res[i][3] = code(Zero)
                          /\ e.res[i][2] > 0 => e.res[i][3] = code(<<1>>)
\* ---- numeric limits ---------------------------------------------------------------
Chunked(v, n) == [i \in 1..n |-> v]
\* integers of w bits: minimum, maximum, epsilon and digits10, numbers as patterns of w bits
TenLe(d, w) == Cmp(TimesPow10(<<1>>, d), Pow2(w)) <= 0
IntLimits(sg, w, r) ==
    LET n == Len(r.max)
    IN /\ FromChunks(r.min) = (IF sg THEN Pow2(w - 1) ELSE Zero)
       /\ FromChunks(r.max) = Sub(Pow2(IF sg THEN w - 1 ELSE w), <<1>>)
       /\ FromChunks(r.eps) = Zero
       /\ LET b == IF sg THEN w - 1 ELSE w IN TenLe(r.d10, b) /\ ~TenLe(r.d10 + 1, b)
FloatLimits(f, r) ==
    LET u(w) == Unpack(f, w)
    IN /\ u(r.min) = [sg |-> 0, ef |-> 1, fr |-> Zero]
       /\ u(r.max) = [sg |-> 0, ef |-> EMax(f) - 1, fr |-> Sub(Pow2(f.p), <<1>>)]
       /\ u(r.eps) = [sg |-> 0, ef |-> Bias(f) - f.p, fr |-> Zero]
       /\ u(r.denorm) = [sg |-> 0, ef |-> 0, fr |-> <<1>>]
       /\ u(r.inf) = [sg |-> 0, ef |-> EMax(f), fr |-> Zero]
       /\ Nan(f, u(r.qnan)) /\ Cmp(u(r.qnan).fr, Pow2(f.p - 1)) >= 0
       /\ Nan(f, u(r.snan)) /\ Cmp(u(r.snan).fr, Pow2(f.p - 1)) < 0
       /\ TenLe(r.d10, f.p) /\ ~TenLe(r.d10 + 1, f.p)
LimitsOK(e) == CASE e.ty = "float" -> FloatLimits(Single, e.res)
                 [] e.ty = "double" -> FloatLimits(Double, e.res)
                 [] OTHER -> IntLimits(e.res.sg = 1, e.res.bits, e.res)
OK(e) == CASE e.op = "reset" -> TRUE
           [] e.op = "sweep" -> SweepOK(e)
           [] e.op = "class" -> e.res = Answers(Class(Fmt(e.ty), U(e, 1)))
           [] e.op = "floor" -> FloorOK(Fmt(e.ty), U(e, 1), R(e))
           [] e.op = "ceil" -> CeilOK(Fmt(e.ty), U(e, 1), R(e))
           [] e.op = "fabs" -> FabsOK(Fmt(e.ty), U(e, 1), R(e))
           [] e.op = "copysign" -> CopysignOK(U(e, 1), U(e, 2), R(e))
           [] e.op = "fmin" -> MinOK(Fmt(e.ty), U(e, 1), U(e, 2), R(e))
           [] e.op = "fmax" -> MaxOK(Fmt(e.ty), U(e, 1), U(e, 2), R(e))
           [] e.op = "clamp" -> ClampOK(U(e, 1), U(e, 2), U(e, 3), R(e))
           [] e.op = "limits" -> LimitsOK(e)
           [] OTHER -> FALSE
TraceInit == last = "" /\ l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace)
             /\ OK(Trace[l]) /\ last' = Trace[l].op
             /\ TLCSet(1, l)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<last, l>>
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
