-------------------------------- MODULE Float --------------------------------
(* What the functions on floating point numbers mean, on bit patterns and in  *)
(* exact arithmetic.  A pattern is a record sg, ef, fr (Decimal.tla).         *)
EXTENDS Decimal
\* ---- classification ---------------------------------------------------------
Class(f, b) == IF b.ef = EMax(f) THEN (IF b.fr = Zero THEN "inf" ELSE "nan")
               ELSE IF b.ef = 0 THEN (IF b.fr = Zero THEN "zero" ELSE "sub") ELSE "normal"
\* <<isnan, isinf, isfinite, isnormal>>
Answers(c) == CASE c = "nan" -> <<1, 0, 0, 0>> [] c = "inf" -> <<0, 1, 0, 0>>
                [] c = "normal" -> <<0, 0, 1, 1>> [] OTHER -> <<0, 0, 1, 0>>
Finite(f, b) == b.ef # EMax(f)
\* ---- values, exactly: sign and magnitude, as a multiple of 2^-K ----------------
K(f) == Bias(f) + f.p - 1                     \* every number is a multiple of 2^-K
UnitK(f) == Pow2(K(f))
V(f, b, k) == [sg |-> b.sg, m |-> Mul(Sig(f, b), Pow2(Exp(f, b) + k))]     \* a multiple of 2^-k; k must be large enough
Fine(f, a, b) == MaxI(0, MaxI(-Exp(f, a), -Exp(f, b)))
\* signed comparison; both zeros are equal
SCmp(x, y) == IF x.m = Zero /\ y.m = Zero THEN 0
              ELSE IF x.m = Zero THEN (IF y.sg = 1 THEN 1 ELSE -1)
              ELSE IF y.m = Zero THEN (IF x.sg = 1 THEN -1 ELSE 1)
              ELSE IF x.sg # y.sg THEN (IF x.sg = 1 THEN -1 ELSE 1)
              ELSE IF x.sg = 1 THEN Cmp(y.m, x.m) ELSE Cmp(x.m, y.m)
\* x - y for y <= x, a magnitude
Diff(x, y) == IF x.m = Zero THEN y.m ELSE IF y.m = Zero THEN x.m
              ELSE IF x.sg # y.sg THEN Add(x.m, y.m) ELSE IF x.sg = 1 THEN Sub(y.m, x.m) ELSE Sub(x.m, y.m)
\* comparison of patterns without arithmetic: magnitudes order like the patterns
PCmpMag(a, b) == IF a.ef # b.ef THEN (IF a.ef < b.ef THEN -1 ELSE 1) ELSE Cmp(a.fr, b.fr)
IsZ(b) == b.ef = 0 /\ b.fr = Zero
PCmp(a, b) == IF IsZ(a) /\ IsZ(b) THEN 0
              ELSE IF a.sg # b.sg THEN (IF a.sg = 1 THEN -1 ELSE 1)
              ELSE IF a.sg = 1 THEN PCmpMag(b, a) ELSE PCmpMag(a, b)
\* ---- integers ----------------------------------------------------------------
RECURSIVE Halve(_)
HalfOf(a) == LET r == FoldLeft(LAMBDA acc, x : LET y == acc[1] * BB + x IN <<y % 2, <<y \div 2>> \o acc[2]>>, <<0, <<>>>>, Reverse(a)) IN Strip(r[2])
Halve(a) == IF a = Zero \/ Odd(a) THEN a ELSE Halve(HalfOf(a))
RECURSIVE TwosIn(_)
TwosIn(a) == IF a = Zero \/ Odd(a) THEN 0 ELSE 1 + TwosIn(HalfOf(a))
IsInteger(f, b) == IsZ(b) \/ Exp(f, b) >= 0 \/ (Exp(f, b) > -(f.p + 1) /\ TwosIn(Sig(f, b)) >= -Exp(f, b))
\* r is the largest integer not above x: r <= x < r + 1
FloorOK(f, x, r) ==
    /\ Finite(f, r) /\ IsInteger(f, r)
    /\ IF Exp(f, x) >= 0 THEN PCmp(r, x) = 0
       ELSE LET k == Fine(f, x, r) vx == V(f, x, k) vr == V(f, r, k)
            IN SCmp(vr, vx) <= 0 /\ Cmp(Diff(vx, vr), Pow2(k)) < 0
CeilOK(f, x, r) ==
    /\ Finite(f, r) /\ IsInteger(f, r)
    /\ IF Exp(f, x) >= 0 THEN PCmp(r, x) = 0
       ELSE LET k == Fine(f, x, r) vx == V(f, x, k) vr == V(f, r, k)
            IN SCmp(vx, vr) <= 0 /\ Cmp(Diff(vr, vx), Pow2(k)) < 0
\* ---- sign and choice ------------------------------------------------------------
FabsOK(f, x, r) == IF Class(f, x) = "nan" THEN Class(f, r) = "nan" ELSE r = [x EXCEPT !.sg = 0]
CopysignOK(x, y, r) == r = [x EXCEPT !.sg = y.sg]
Nan(f, b) == Class(f, b) = "nan"
\* equal numbers (in particular the two zeros) may be exchanged
MinOK(f, x, y, r) == IF Nan(f, x) /\ Nan(f, y) THEN Nan(f, r)
                     ELSE IF Nan(f, x) THEN r = y ELSE IF Nan(f, y) THEN r = x
                     ELSE r \in {x, y} /\ PCmp(r, x) <= 0 /\ PCmp(r, y) <= 0
MaxOK(f, x, y, r) == IF Nan(f, x) /\ Nan(f, y) THEN Nan(f, r)
                     ELSE IF Nan(f, x) THEN r = y ELSE IF Nan(f, y) THEN r = x
                     ELSE r \in {x, y} /\ PCmp(r, x) >= 0 /\ PCmp(r, y) >= 0
\* lo <= hi, none of them NaN
ClampOK(x, lo, hi, r) == /\ r \in {x, lo, hi}
                         /\ PCmp(r, IF PCmp(x, lo) < 0 THEN lo ELSE IF PCmp(hi, x) < 0 THEN hi ELSE x) = 0
=============================================================================
