------------------------------- MODULE Ratio -------------------------------
(* A ratio is the reduced fraction of its arguments.  Reduction by Euclid's *)
(* algorithm is a state machine; its result is characterised without it.    *)
EXTENDS Integers, TLC, Json
CONSTANT Max
VARIABLES n, d, a, b, pc, num, den
vars == <<n, d, a, b, pc, num, den>>
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Divides(k, x) == x % k = 0
Coprime(x, y) == \A k \in 2..(2 * Max) : ~(Divides(k, Abs(x)) /\ Divides(k, Abs(y)))
Reduced(nn, dd, x, y) == y > 0 /\ x * dd = nn * y /\ Coprime(x, y)
Init == /\ n \in -Max..Max /\ d \in (-Max..Max) \ {0}
        /\ a = Abs(n) /\ b = Abs(d) /\ pc = "gcd" /\ num = 0 /\ den = 0
Step == pc = "gcd" /\ b # 0 /\ a' = b /\ b' = a % b /\ UNCHANGED <<n, d, pc, num, den>>
Done == /\ pc = "gcd" /\ b = 0 /\ pc' = "done"
        /\ num' = (Sign(n) * Sign(d)) * (Abs(n) \div a) /\ den' = Abs(d) \div a
        /\ UNCHANGED <<n, d, a, b>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
TypeOK == pc \in {"gcd", "done"} /\ a >= 0 /\ b >= 0
Exact == pc = "done" => Reduced(n, d, num, den)
\* there is only one such fraction
Unique == pc = "done" => \A x \in -Max..Max, y \in 1..Max : Reduced(n, d, x, y) => x = num /\ y = den
Ends == <>(pc = "done")
Emit == pc' = "done" => PrintT(ToJson([n |-> n, d |-> d, num |-> num', den |-> den']))
=============================================================================
