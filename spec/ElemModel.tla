------------------------------ MODULE ElemModel ------------------------------
(* The functions of Elem satisfy the laws that define them, on a grid.        *)
EXTENDS Elem, TLC
CONSTANTS K
VARIABLES a, b
\* a / 16 and b / 16
X(k) == DivSmall(Shift(<<k>>, N), 16)
Tiny == <<0, 1>>                 \* 10^-16
Near(x, y) == Le(Diff(x, y), Tiny)
Init == a \in 0..K /\ b = 0
Next == b < K /\ b' = b + 1 /\ a' = a
E(t) == LET x == ExpOf(t) IN IF x.e < 0 THEN DivPow2(x.g, -x.e) ELSE Mul(x.g, Pow2(x.e))
\* e^-a e^-b = e^-(a+b), e^a e^-a = 1
ExpLaw == /\ Near(FMul(ExpNeg(Sg(1, X(a))), ExpNeg(Sg(1, X(b)))), ExpNeg(Sg(1, Add(X(a), X(b)))))
          /\ a <= 400 => Le(Diff(FMul(E(Sg(0, X(a))), ExpNeg(Sg(1, X(a)))), One), FMul(E(Sg(0, X(a))), <<100>>))
\* the derivative at zero: 1 + x <= e^x <= 1 + x + x^2 for 0 <= x <= 1
ExpNear0 == a <= 16 => LET t == DivSmall(X(a), 4096) y == E(Sg(0, t)) IN Le(Add(One, t), Add(y, <<10>>)) /\ Le(y, Add(Add(One, t), FMul(t, t)))
\* addition theorems
Circ == LET c == Circle(X(a)) d == Circle(X(b)) s == Circle(Add(X(a), X(b)))
            same(x, y) == Le(SAdd(x, Neg(y)).m, Tiny)
        IN /\ Near(Add(FMul(c.sn.m, c.sn.m), FMul(c.cs.m, c.cs.m)), One)
           /\ same(s.sn, SAdd(SMul(c.sn, d.cs), SMul(c.cs, d.sn)))
           /\ same(s.cs, SAdd(SMul(c.cs, d.cs), Neg(SMul(c.sn, d.sn))))
CircNear0 == a <= 16 => LET t == DivSmall(X(a), 4096) s == Circle(t).sn IN s.m = Zero \/ (s.s = 0 /\ Le(s.m, Add(t, <<10>>)) /\ Le(t, Add(Add(s.m, <<10>>), FMul(t, FMul(t, t)))))
\* erf: increasing, one in the limit, and its difference quotient is 2/sqrt(pi) e^-x^2 at the midpoint
ErfLaw == LET h == X(1) x == X(a) IN
          /\ a = 0 => ErfOf(x) = Zero
          /\ a < 80 => Le(ErfOf(x), Add(ErfOf(Add(x, h)), <<0, 0, 10>>)) /\ Le(ErfOf(x), Add(One, <<0, 0, 10>>))
          /\ a \in 1..48 => LET d == DivSmall(h, 256)
                               dq == MulSmall(Sub(ErfOf(Add(x, d)), ErfOf(Sub(x, d))), 2048)
                           IN Le(Diff(dq, FMul(TwoOverRootPi, ExpNeg(Sg(1, FMul(x, x))))), FMul(d, MulSmall(d, 4)))
\* the constants fit one another, and large arguments are reduced
Consts == /\ Near(FMul(Ln2, Log2E), One) /\ Near(FMul(HalfPi, TwoOverPi), One)
          /\ Near(E(Sg(0, Ln2)), MulSmall(One, 2)) /\ Near(E(Sg(0, Ln10)), MulSmall(One, 10))
          /\ Le(Circle(HalfPi).cs.m, <<10>>) /\ Near(Circle(HalfPi).sn.m, One)
Large == LET c == Circle(MulSmall(X(a), 20000))
             q == FloorI(Add(FMul(MulSmall(X(a), 20000), TwoOverPi), Half))
         IN /\ Near(Add(FMul(c.sn.m, c.sn.m), FMul(c.cs.m, c.cs.m)), One)
            /\ Le(Diff(MulSmall(X(a), 20000), MulSmall(HalfPi, q)), Add(DivSmall(HalfPi, 2), Tiny))
Laws == (b = 0 => Consts /\ Large) /\ ExpLaw /\ ExpNear0 /\ Circ /\ CircNear0 /\ (b = 0 => ErfLaw)
=============================================================================
