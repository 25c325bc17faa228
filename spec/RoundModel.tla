----------------------------- MODULE RoundModel -----------------------------
(* The rounding relation of Decimal.tla on a tiny binary format: every        *)
(* decimal has exactly one correctly rounded pattern, rounding is monotone,   *)
(* and every pattern has a shortest text.                                     *)
EXTENDS Decimal, TLC
CONSTANTS P, Eb, MaxD, NegE, MaxE
VARIABLES D, E, prev
vars == <<D, E, prev>>
Fmt == [p |-> P, eb |-> Eb]
Pat(k) == [sg |-> 0, ef |-> k \div (2 ^ P), fr |-> FromInt(k % (2 ^ P))]
Top == (2 ^ Eb - 1) * 2 ^ P          \* infinity
Rounded(d, e) == {k \in 0..Top : RoundsTo(Fmt, FromInt(d), e, Pat(k))}
Init == D = 0 /\ E \in (-NegE)..MaxE /\ prev = 0
Next == D < MaxD /\ D' = D + 1 /\ E' = E /\ prev' = CHOOSE k \in Rounded(D, E) : TRUE
Unique == \E r \in 0..Top : Rounded(D, E) = {r}
Monotone == \A r \in Rounded(D, E) : prev <= r
=============================================================================
