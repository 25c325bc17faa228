------------------------------ MODULE MakeSeq ------------------------------
(* The doubling algorithm of make_integer_sequence: the bits of N from the     *)
(* top; each instantiation doubles the sequence and, for a set bit, appends    *)
(* one more.                                                                   *)
EXTENDS Integers, Sequences
CONSTANT Max
VARIABLES n, m, s, ns, done
vars == <<n, m, s, ns, done>>
RECURSIVE Above(_, _)
Above(k, x) == IF k < x THEN x ELSE IF x = 1024 THEN 1048576 ELSE Above(k, 2 * x)
BitSet(k, x) == (k \div x) % 2 = 1
Init == n \in 0..Max /\ m = Above(n, 2) /\ s = 0 /\ ns = <<>> /\ done = FALSE
Step == /\ ~done
        /\ IF m = 0 THEN done' = TRUE /\ UNCHANGED <<n, m, s, ns>>
           ELSE /\ ns' = ns \o [i \in 1..Len(ns) |-> ns[i] + s] \o (IF BitSet(n, m) THEN <<2 * s>> ELSE <<>>)
                /\ s' = 2 * s + (IF BitSet(n, m) THEN 1 ELSE 0)
                /\ m' = m \div 2 /\ UNCHANGED <<n, done>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Counts == s = Len(ns) /\ \A i \in 1..Len(ns) : ns[i] = i - 1
Right == done => Len(ns) = n
Ends == <>done
=============================================================================
