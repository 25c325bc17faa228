----------------------------- MODULE ElemTrace -----------------------------
(* Judges recorded answers of the elementary functions.                     *)
EXTENDS Elem, TLC, Json, IOUtils
VARIABLES last, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
U(e, k) == Unpack(Single, e.q[k])
\* n units of 10^-12
E12(n) == Shift(FromInt(n), 2)
PosZero == [sg |-> 0, ef |-> 0, fr |-> Zero]
NegZero == [sg |-> 1, ef |-> 0, fr |-> Zero]
FOne == [sg |-> 0, ef |-> 127, fr |-> Zero]
Inf(s) == [sg |-> s, ef |-> 255, fr |-> Zero]
MaxF == [sg |-> 0, ef |-> 254, fr |-> Sub(Pow2(23), <<1>>)]
ZeroB(b) == IsZero(Single, b)
Normal(b) == b.ef \in 1..254
Abs(b) == [b EXCEPT !.sg = 0]
\* n/10^d as fixed point
Dec(n, d) == DivSmall(DivSmall(Shift(FromInt(n), N), 10^(d \div 2)), 10^(d - d \div 2))
\* |x| <= bound
Within(x, bound) == Le(Mag(x), bound)
\* |y - v| <= d + half an ulp of y
Close(y, v, d) == Finite(y) /\ Le(SAdd(Val(y), Neg(v)).m, Add(d, HalfUlp(y)))
\* y > 0 lies within (k + 1/2) ulps of v.g * 2^v.e, 1 <= v.g < 2
Ulps(y, v, k) == Finite(y) /\ y.sg = 0 /\
    Le(MulSmall(Mul(Diff(Fix(Sig(Single, y), Exp(Single, y) - v.e), v.g), Pow2(23)), 2), MulSmall(One, 2 * k + 1))
\* cosh and sinh of a magnitude, g * 2^e
Hyp(a, s) ==
    LET p == ExpOf(Sg(0, a))
        n == ExpOf(Sg(1, a))
        d == DivPow2(n.g, p.e - n.e)
        g == IF s = 0 THEN Add(p.g, d) ELSE Sub(p.g, d)
    IN IF Cmp(g, MulSmall(One, 2)) >= 0 THEN [g |-> DivSmall(g, 2), e |-> p.e]
       ELSE IF Cmp(g, One) >= 0 THEN [g |-> g, e |-> p.e - 1] ELSE [g |-> MulSmall(g, 2), e |-> p.e - 2]
\* y = log x: e^((y - d) c) <= x <= e^((y + d) c)
LogNear(x, y, d, c) ==
    LET dd == Sg(0, Add(d, HalfUlp(y)))
        lo == SMul(SAdd(Val(y), Neg(dd)), Sg(0, c))
        hi == SMul(SAdd(Val(y), dd), Sg(0, c))
    IN Finite(y) /\ CmpExp(Sig(Single, x), Exp(Single, x), lo) >= 0 /\ CmpExp(Sig(Single, x), Exp(Single, x), hi) <= 0
LogOK(x, y, d, c) ==
    IF ZeroB(x) THEN y = Inf(1)
    ELSE IF x = FOne THEN y = PosZero
    ELSE (x.sg = 0 /\ Normal(x)) => Le(Mag(y), Shift(<<100>>, N)) /\ LogNear(x, y, d, c)
ExpOK(x, y) == IF ZeroB(x) THEN y = FOne ELSE Within(x, Dec(8733, 2)) => Ulps(y, ExpOf(Val(x)), 230)
SqrtOK(x, y) ==
    IF ZeroB(x) \/ x = FOne \/ x = Inf(0) THEN y = x
    ELSE IF x.sg = 1 \/ IsNaN(Single, x) THEN IsNaN(Single, y)
    ELSE Normal(x) =>
        LET s2 == Mul(Sig(Single, y), Sig(Single, y))
            q2 == 2 * Exp(Single, y)
            qx == Exp(Single, x)
            c(k) == \* (10^4 y)^2 against k^2 x
                Cmp(Scale2(Shift(s2, 2), q2 - qx), Scale2(MulSmall(MulSmall(Sig(Single, x), k), k), qx - q2))
        IN Finite(y) /\ y.sg = 0 /\ c(9982) >= 0 /\ c(10018) <= 0
\* the binary exponent of a positive number
IntOf(s, q) == IF q >= 0 THEN Mul(s, Pow2(q)) ELSE DivPow2(s, -q)
TopBit(b) == IF b.ef > 0 THEN b.ef - 127 ELSE CHOOSE k \in -149..-127 : Cmp(b.fr, Pow2(k + 149)) >= 0 /\ Cmp(b.fr, Pow2(k + 150)) < 0
Cube(a) == Mul(a, Mul(a, a))
CbrtOK(x, y) ==
    IF ZeroB(x) \/ IsInf(Single, x) THEN y = x
    ELSE IF IsNaN(Single, x) THEN IsNaN(Single, y)
    ELSE /\ Finite(y) /\ y.sg = x.sg
         /\ IF Le(Sig(Single, x), FromInt(7136237)) /\ x.ef = 0    \* 9.99999935e-39
            THEN LET \* |y - cbrt x| <= 8.14687e-14 + half an ulp, as cubes, in units of 2^-70 (y < 2^-40)
                     Y == IntOf(Sig(Single, y), 70 + Exp(Single, y))
                     d == FromInt(96181500)        \* 8.14687e-14 * 2^70, rounded up
                     X == Mul(Sig(Single, x), Pow2(61))    \* |x| in units of 2^-210
                 IN (Le(Y, d) \/ Le(Cube(Sub(Y, d)), X)) /\ Le(X, Cube(Add(Y, d)))
            ELSE LET k == TopBit(x) \div 3                    \* the root lies in [2^k, 2^(k+1))
                     Y == IntOf(Sig(Single, y), Exp(Single, y) - k + 26)   \* y in units of 2^(k-26)
                     d == <<100>>                             \* 12 + 1/2 units of 2^(k-23)
                     q == Exp(Single, x) - 3 * (k - 26)
                 IN /\ Le(d, Y)
                    /\ Cmp(Cube(Sub(Y, d)), Scale2(Sig(Single, x), q)) <= 0
                    /\ Cmp(Cube(Add(Y, d)), Scale2(Sig(Single, x), q)) >= 0
SinOK(x, y) ==
    /\ ZeroB(x) => ZeroB(y)
    /\ Within(x, Dec(6283186, 6)) => Close(y, SinOf(Val(x)), E12(119209))
    /\ Within(x, Shift(<<8192>>, N)) => Close(y, SinOf(Val(x)), E12(250000))
    /\ Within(x, Shift(<<1072, 13>>, N)) => Close(y, SinOf(Val(x)), E12(5000000))
    /\ Within(x, Shift(<<0, 0, 20>>, N)) => Finite(y) /\ Within(y, One)
CosOK(x, y) ==
    /\ ZeroB(x) => y = FOne
    /\ Within(x, Dec(6283186, 6)) => Close(y, CosOf(Val(x)), E12(433127))
    /\ Within(x, Shift(<<8192>>, N)) => Close(y, CosOf(Val(x)), E12(600000))
    /\ Within(x, Shift(<<1072, 13>>, N)) => Close(y, CosOf(Val(x)), E12(5000000))
    /\ Within(x, Shift(<<0, 0, 20>>, N)) => Finite(y) /\ Within(y, One)
TanOK(x, y) ==
    Within(x, Shift(<<8192>>, N)) =>
        LET c == Circle(Mag(x))
            s == IF x.sg = 0 THEN c.sn ELSE Neg(c.sn)
            d == SAdd(SMul(Val(y), c.cs), Neg(s))
        IN Finite(y) /\ Le(FMul(d.m, c.cs.m), E12(400000))
SinhOK(x, y) ==
    Within(x, Dec(8733, 2)) =>
        IF Within(x, One) THEN LET h == Hyp(Mag(x), 1) IN
              Close(y, Sg(x.sg, IF Mag(x) = Zero THEN Zero ELSE IF h.e >= 0 THEN Mul(h.g, Pow2(h.e)) ELSE DivPow2(h.g, -h.e)), E12(119209))
        ELSE y.sg = x.sg /\ Ulps(Abs(y), Hyp(Mag(x), 1), 178)
CoshOK(x, y) == /\ ZeroB(x) => y = FOne
                /\ Within(x, Dec(8733, 2)) => Ulps(y, Hyp(Mag(x), 0), 178)
TanhOK(x, y) ==
    Finite(x) =>
        LET a == Mag(x)
            z == IF FloorI(a) >= 40 \/ Len(a) > N + 2 THEN Zero ELSE ExpNeg(Sg(1, MulSmall(a, 2)))
            p == Add(One, z)
            m == Sub(One, z)
        IN /\ Finite(y) /\ (y.sg = x.sg \/ ZeroB(y))
           /\ Le(Diff(FMul(Mag(y), p), m), FMul(Add(E12(3129240), HalfUlp(y)), p))
ErfM(b) == IF b.ef >= 130 THEN One ELSE ErfOf(Mag(b))
ErfOK(x, y) == Finite(x) => Close(y, Sg(x.sg, ErfM(x)), E12(1937150)) /\ (y.sg = x.sg \/ ZeroB(y))
ErfcOK(x, y) == /\ ZeroB(x) => y = FOne
                /\ Within(x, Shift(<<4>>, N)) => Close(y, SAdd(Sg(0, One), Sg(1 - x.sg, ErfM(x))), E12(1907350))
IerfOK(x, y) == /\ ZeroB(x) => y = x
                /\ Cmp(Mag(x), One) < 0 => Finite(y) /\ Close(x, Sg(y.sg, ErfM(y)), E12(IF Within(x, Dec(99, 2)) THEN 1000000 ELSE 40000000))
\* ---- powers ----------------------------------------------------------------------
\* y an integer: its parity, or -1
Parity(y) ==
    LET q == Exp(Single, y)
        s == Sig(Single, y)
        h == DivPow2(s, -q)
    IN IF q > 0 THEN 0 ELSE IF -q > 24 THEN -1 ELSE IF Mul(h, Pow2(-q)) # s THEN -1 ELSE IF Odd(h) THEN 1 ELSE 0
\* the witness w of ln |x|: |x| differs from e^w by less than 10^-13 |x|
Witness(x, w) ==
    LET t == ExpOf(w)
        X == Fix(Sig(Single, x), Exp(Single, x) - t.e)
    IN Le(Diff(X, t.g), Shift(<<1000>>, 1))
Squared(x, y) ==
    LET s2 == Mul(Sig(Single, x), Sig(Single, x))
        q == 2 * Exp(Single, x)
        D == IF q >= 0 THEN Mul(s2, Pow2(q)) ELSE Mul(s2, FoldLeft(LAMBDA p, k : MulSmall(p, 25), <<1>>, [k \in 1..((-q) \div 2) |-> k]))
        E == IF q >= 0 THEN 0 ELSE q
        lo == LowerMid(Single, MaxF)
    IN y.sg = 0 /\ IF y = MaxF THEN CmpDB(D, E, lo.m, lo.q) >= 0 ELSE Finite(y) /\ RoundsTo(Single, D, E, y)
PowOK(x, p, y, e) ==
    IF ZeroB(p) THEN y = FOne
    ELSE IF p = FOne THEN Normal(x) => y = x
    ELSE IF p = [FOne EXCEPT !.ef = 128] THEN Normal(x) => Squared(x, y)
    ELSE
        \* a negative base, whatever the size of the exponent: the sign of an integer power, 0 for any other
        /\ (x.sg = 1 /\ ~IsNaN(Single, x) /\ ~ZeroB(x) /\ Finite(p)) =>
               IF Parity(p) = -1 THEN Cmp(Mag(p), E12(1000000)) >= 0 => ZeroB(y)
               ELSE ~IsNaN(Single, y) /\ y.sg = Parity(p)
        /\ (Normal(x) /\ Finite(p) /\ "_w" \in DOMAIN e) =>
           LET w == Sg(e["_w"][1], Strip(Tail(e["_w"])))
               t == SMul(Val(p), w)
               v == ExpOf(t)
               tol == Add(E12(27500000), Add(FMul(Mag(p), E12(5300000)), FMul(t.m, E12(120000))))
           IN /\ Witness(x, w)
              /\ ((x.sg = 0 \/ Parity(p) # -1) /\ Within(p, Shift(<<256>>, N)) /\ Le(t.m, Shift(<<86>>, N))) =>
                   /\ Finite(y) /\ (x.sg = 0 => y.sg = 0)
                   /\ Le(Diff(Fix(Sig(Single, y), Exp(Single, y) - v.e), v.g), FMul(tol, v.g))
Opposite(y, z) == y = [z EXCEPT !.sg = 1 - @]
\* the sign of the argument decides nothing else
Even(e, y) == LET z == Unpack(Single, e.res[2]) IN y = z
OddF(e, y) == Opposite(y, Unpack(Single, e.res[2]))
Fn(e) ==
    LET x == U(e, 1)
        y == Unpack(Single, e.res[1])
        num == ~IsNaN(Single, x)
    IN CASE e.f = "exp" -> num => ExpOK(x, y)
         [] e.f = "log" -> num => LogOK(x, y, E12(7629390), One)
         [] e.f = "log10" -> num => LogOK(x, y, E12(3814700), Ln10)
         [] e.f = "sqrt" -> SqrtOK(x, y)
         [] e.f = "cbrt" -> CbrtOK(x, y) /\ (num => OddF(e, y))
         [] e.f = "sin" -> Finite(x) => SinOK(x, y)
         [] e.f = "cos" -> Finite(x) => CosOK(x, y)
         [] e.f = "tan" -> Finite(x) => TanOK(x, y)
         [] e.f = "sinh" -> Finite(x) => SinhOK(x, y) /\ OddF(e, y)
         [] e.f = "cosh" -> Finite(x) => CoshOK(x, y) /\ Even(e, y)
         [] e.f = "tanh" -> Finite(x) => TanhOK(x, y) /\ OddF(e, y)
         [] e.f = "erf" -> Finite(x) => ErfOK(x, y) /\ OddF(e, y)
         [] e.f = "erfc" -> Finite(x) => ErfcOK(x, y)
         [] e.f = "ierf" -> Finite(x) => IerfOK(x, y) /\ OddF(e, y)
         [] e.f = "pow" -> PowOK(x, U(e, 2), y, e)
         [] OTHER -> FALSE
OK(e) == CASE e.op = "reset" -> TRUE
           [] e.op = "fn" -> Fn(e)
           [] OTHER -> FALSE
TraceInit == last = "" /\ l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace)
             /\ OK(Trace[l]) /\ last' = Trace[l].op
             /\ TLCSet(1, l)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<last, l>>
Report == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
