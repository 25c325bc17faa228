------------------------------ MODULE Convert ------------------------------
(* Number/text conversion as a component with one request and one answer at  *)
(* a time: every answer is determined by the request alone, not by history.  *)
EXTENDS Decimal, TLC
VARIABLES req, ans
cvars == <<req, ans>>
\* ---- integers ---------------------------------------------------------------
Neg(w) == w[1] >= 32768
IntTextOK(signed, w, t) ==
    LET u == FromChunks(w)
        neg == signed /\ Neg(w)
        dg == IF neg THEN Tail(t) ELSE t
    IN /\ t # <<>>
       /\ neg => t[1] = Minus
       /\ dg # <<>> /\ \A i \in 1..Len(dg) : IsDigit(dg[i])
       /\ dg[1] = 48 => (Len(dg) = 1 /\ ~neg)
       /\ LET v == FromDigits([i \in 1..Len(dg) |-> dg[i] - 48])
          IN IF neg THEN Add(v, u) = Pow2(16 * Len(w)) ELSE v = u
\* ---- floating point to text -----------------------------------------------------
TNaN == <<78, 97, 78>>
TInf == <<73, 110, 102, 105, 110, 105, 116, 121>>
TZero == <<48, 69, 48>>
Signed(b, t) == IF b.sg = 1 THEN <<Minus>> \o t ELSE t
\* sign? digit ('.' digits)? 'E' '-'? digits, nothing redundant
Form(t) ==
    LET s == IF t # <<>> /\ t[1] = Minus THEN Tail(t) ELSE t
        ep == {i \in 1..Len(s) : s[i] = 69}
        x == Lex(t)
    IN /\ IsNumber(x) /\ ep # {} /\ \A i, j \in ep : i = j
       /\ LET k == CHOOSE i \in ep : TRUE
              m == SubSeq(s, 1, k - 1)
              y == SubSeq(s, k + 1, Len(s))
              z == IF y # <<>> /\ y[1] = Minus THEN Tail(y) ELSE y
          IN /\ m # <<>> /\ IsDigit(m[1]) /\ m[1] # 48
             /\ Len(m) > 1 => (Len(m) > 2 /\ m[2] = Dot /\ m[Len(m)] # 48)
             /\ z # <<>> /\ IsDigit(z[1]) /\ (z[1] = 48 => (Len(z) = 1 /\ y = z))
FloatTextOK(f, w, t) ==
    LET b == Unpack(f, w)
    IN IF IsNaN(f, b) THEN t = TNaN
       ELSE IF IsInf(f, b) THEN t = Signed(b, TInf)
       ELSE IF IsZero(f, b) THEN t = Signed(b, TZero)
       ELSE LET x == Lex(t) D == FromDigits(x.d) E == E10(x)
            IN /\ Form(t)
               /\ x.neg = (b.sg = 1)
               /\ RoundsTo(f, D, E, b)
               /\ NoShorter(f, D, E, b)
               /\ Closest(f, D, E, b)
\* ---- text to floating point -----------------------------------------------------
Limit(f) == IF f.p = 23 THEN 9 ELSE 17
ReadOK(f, t, w) ==
    LET x == Lex(t) b == Unpack(f, w)
        right == RoundsTo(f, FromDigits(x.d), E10(x), b) /\ x.neg = (b.sg = 1)
    IN IF IsOpen(x) THEN TRUE
       ELSE IF ~IsNumber(x) THEN IsNaN(f, b)
       ELSE IF Len(Lead(x.d)) <= Limit(f) /\ x.ed <= 4 THEN right
       ELSE IsNaN(f, b) \/ right
\* ---- the actions -------------------------------------------------------------------
OK(e) == CASE e.op = "i32" -> IntTextOK(TRUE, e.w, e.res)
           [] e.op = "i64" -> IntTextOK(TRUE, e.w, e.res)
           [] e.op = "u32" -> IntTextOK(FALSE, e.w, e.res)
           [] e.op = "u64" -> IntTextOK(FALSE, e.w, e.res)
           [] e.op = "f2s" -> FloatTextOK(Single, e.w, e.res)
           [] e.op = "d2s" -> FloatTextOK(Double, e.w, e.res)
           [] e.op = "s2f" -> ReadOK(Single, e.q, e.res)
           [] e.op = "s2d" -> ReadOK(Double, e.q, e.res)
           [] e.op = "rtf" -> e.res = e.w          \* to_string then stof gives the same bits back
           [] e.op = "rtd" -> e.res = e.w
           [] e.op = "reset" -> TRUE
           [] OTHER -> FALSE
Init == req = <<>> /\ ans = <<>>
Do(e) == OK(e) /\ req' = e.op /\ ans' = e.res
=============================================================================
