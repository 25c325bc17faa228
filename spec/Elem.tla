-------------------------------- MODULE Elem --------------------------------
(* What the elementary functions of nanomath.h mean, and how far from it an   *)
(* answer may lie.  Magnitudes are fixed-point naturals of N limbs of four    *)
(* decimal digits after the point; every truncation loses less than 10^-4N.  *)
EXTENDS Decimal
N == 5
One == Shift(<<1>>, N)
Half == <<0, 0, 0, 0, 5000>>
Ln2 == <<942, 9453, 559, 4718, 6931>>
Log2E == <<736, 9634, 888, 9504, 4426, 1>>
Ln10 == <<8402, 456, 2994, 8509, 3025, 2>>
HalfPi == <<1923, 8966, 6794, 9632, 5707, 1>>
TwoOverPi == <<4308, 5813, 2367, 1977, 6366>>
TwoOverRootPi == <<7390, 5125, 7095, 7916, 1283, 1>>
\* a div k for 0 < k <= 200000
DivSmall(a, k) == LET r == FoldLeft(LAMBDA acc, x : LET y == acc[1] * BB + x IN <<y % k, <<y \div k>> \o acc[2]>>, <<0, <<>>>>, Reverse(a)) IN Strip(r[2])
RECURSIVE DivPow2(_, _)
DivPow2(a, k) == IF a = Zero THEN Zero ELSE IF k >= 13 THEN DivPow2(DivSmall(a, 8192), k - 13) ELSE DivSmall(a, P2[k])
FMul(a, b) == LET p == Mul(a, b) IN IF Len(p) <= N THEN Zero ELSE SubSeq(p, N + 1, Len(p))
Floor(a) == IF Len(a) <= N THEN Zero ELSE SubSeq(a, N + 1, Len(a))
\* the integer part as a number, for a < 10^8
FloorI(a) == Limb(a, N + 1) + BB * Limb(a, N + 2)
Diff(a, b) == IF Cmp(a, b) >= 0 THEN Sub(a, b) ELSE Sub(b, a)
Le(a, b) == Cmp(a, b) <= 0
\* signed: sign and magnitude
Sg(s, a) == [s |-> s, m |-> a]
Neg(a) == Sg(1 - a.s, a.m)
SAdd(a, b) == IF a.s = b.s THEN Sg(a.s, Add(a.m, b.m)) ELSE IF Cmp(a.m, b.m) >= 0 THEN Sg(a.s, Sub(a.m, b.m)) ELSE Sg(b.s, Sub(b.m, a.m))
SMul(a, b) == Sg((a.s + b.s) % 2, FMul(a.m, b.m))
SLe(a, b) == LET d == SAdd(b, Neg(a)) IN d.s = 0 \/ d.m = Zero
\* the magnitude s * 2^q as a fixed-point number
Fix(s, q) == IF q >= 0 THEN Shift(Mul(s, Pow2(q)), N) ELSE DivPow2(Shift(s, N), -q)
Finite(b) == b.ef # 255
Mag(b) == Fix(Sig(Single, b), Exp(Single, b))
Val(b) == Sg(b.sg, Mag(b))
\* half a unit in the last place of an answer
HalfUlp(b) == Fix(<<1>>, Exp(Single, b) - 1)
\* ---- e to the power t: g * 2^e with 1 <= g < 2 ------------------------------------
Horner(r, rs) == FoldLeft(LAMBDA p, k : LET d == DivSmall(FMul(r, p), 18 - k) IN IF rs = 0 THEN Add(One, d) ELSE Sub(One, d), One, [k \in 1..17 |-> k])
ExpOf(t) ==
    LET k == FloorI(Add(FMul(t.m, Log2E), Half))
        r == SAdd(t, Sg(1 - t.s, MulSmall(Ln2, k)))
        g == Horner(r.m, r.s)
        e == IF t.s = 0 THEN k ELSE -k
    IN IF Cmp(g, One) < 0 THEN [g |-> MulSmall(g, 2), e |-> e - 1]
       ELSE IF Cmp(g, MulSmall(One, 2)) >= 0 THEN [g |-> DivSmall(g, 2), e |-> e + 1]
       ELSE [g |-> g, e |-> e]
\* e to the power t as a fixed-point number, t <= 0
ExpNeg(t) == LET x == ExpOf(t) IN DivPow2(x.g, -x.e)
\* s * 2^q compared with e to the power t
CmpExp(s, q, t) == LET x == ExpOf(t) IN Cmp(Scale2(Shift(s, N), q - x.e), Scale2(x.g, x.e - q))
\* ---- the circle ------------------------------------------------------------------
\* sine and cosine of the magnitude a
Circle(a) ==
    LET q == FloorI(Add(FMul(a, TwoOverPi), Half))
        r == SAdd(Sg(0, a), Sg(1, MulSmall(HalfPi, q)))
        s == FMul(r.m, r.m)
        sn == FMul(r.m, FoldLeft(LAMBDA p, k : Sub(One, DivSmall(FMul(s, p), (22 - 2 * k) * (23 - 2 * k))), One, [k \in 1..10 |-> k]))
        cs == FoldLeft(LAMBDA p, k : Sub(One, DivSmall(FMul(s, p), (21 - 2 * k) * (22 - 2 * k))), One, [k \in 1..10 |-> k])
        S == Sg(r.s, sn)
        C == Sg(0, cs)
    IN CASE q % 4 = 0 -> [sn |-> S, cs |-> C]
         [] q % 4 = 1 -> [sn |-> C, cs |-> Neg(S)]
         [] q % 4 = 2 -> [sn |-> Neg(S), cs |-> Neg(C)]
         [] OTHER -> [sn |-> Neg(C), cs |-> S]
SinOf(x) == LET c == Circle(x.m).sn IN IF x.s = 0 THEN c ELSE Neg(c)
CosOf(x) == Circle(x.m).cs
\* ---- the error function of a magnitude ------------------------------------------
ErfOf(a) ==
    IF FloorI(a) >= 5 THEN One
    ELSE LET u == MulSmall(FMul(a, a), 2)
             r == FoldLeft(LAMBDA acc, k : LET t == DivSmall(FMul(acc[1], u), 2 * k + 1) IN <<t, Add(acc[2], t)>>, <<a, a>>, [k \in 1..110 |-> k])
             x == ExpOf(Sg(1, FMul(a, a)))
         IN FMul(TwoOverRootPi, DivPow2(FMul(r[2], x.g), -x.e))
=============================================================================
