----------------------------- MODULE FloatModel -----------------------------
(* The definitions of Float.tla on a tiny format, for every pair of patterns: *)
(* answers exist, are unique up to the sign of zero, and the familiar laws     *)
(* hold.  The truncate-and-adjust algorithm of floor and ceil is one step.     *)
EXTENDS Float, FiniteSets, TLC
CONSTANTS P, Eb
VARIABLES x, y
vars == <<x, y>>
F == [p |-> P, eb |-> Eb]
Pats == {[sg |-> s, ef |-> e, fr |-> FromInt(m)] : s \in {0, 1}, e \in 0..(2 ^ Eb - 1), m \in 0..(2 ^ P - 1)}
Init == x \in Pats /\ y \in Pats
Next == UNCHANGED vars
Neg(b) == [b EXCEPT !.sg = 1 - @]
Value(s) == IF \A a, b \in s : PCmp(a, b) = 0 THEN s # {} ELSE FALSE      \* one value, in one or two spellings
Floors == {r \in Pats : FloorOK(F, x, r)}
Ceils == {r \in Pats : CeilOK(F, x, r)}
OneClass == Cardinality({c \in {"nan", "inf", "zero", "sub", "normal"} : Class(F, x) = c}) = 1 /\ Class(F, x) = Class(F, Neg(x))
FloorCeil == Finite(F, x) /\ y = x =>
    /\ Value(Floors) /\ Value(Ceils)
    /\ \A r \in Floors : \A q \in Ceils : PCmp(r, x) <= 0 /\ PCmp(x, q) <= 0 /\ FloorOK(F, Neg(x), Neg(q)) /\ CeilOK(F, Neg(x), Neg(r))
    /\ IsInteger(F, x) => \A r \in Floors \cup Ceils : PCmp(r, x) = 0
\* comparing patterns agrees with comparing values
OrderRight == Finite(F, x) /\ Finite(F, y) => LET k == Fine(F, x, y) IN PCmp(x, y) = SCmp(V(F, x, k), V(F, y, k))
MinMax == LET mins == {r \in Pats : MinOK(F, x, y, r)} maxs == {r \in Pats : MaxOK(F, x, y, r)}
          IN mins # {} /\ maxs # {} /\ (~Nan(F, x) /\ ~Nan(F, y) => Value(mins) /\ Value(maxs))
=============================================================================
