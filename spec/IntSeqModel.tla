---------------------------- MODULE IntSeqModel ----------------------------
(* All short sequences: the laws that tie the operations together.  Every     *)
(* pair is printed; the real templates are asked about all of them.           *)
EXTENDS IntSeq, TLC, Json
CONSTANTS Low, High, MaxLen, Types
VARIABLES q, p
Vals == (0 - Low)..High
Init == q = <<>> /\ p = <<>>
Next == Len(q) < MaxLen /\ \E x, y \in Vals : q' = Append(q, x) /\ p' = Append(p, y)
Laws == /\ Inclusive(q) = Plus(Exclusive(q), q)
        /\ Exclusive(q) = Minus(Inclusive(q), q)
        /\ q # <<>> => /\ Inclusive(q)[Len(q)] = Sum(q)
                       /\ Exclusive(q)[1] = 0
                       /\ \A i \in 1..(Len(q) - 1) : Exclusive(q)[i + 1] = Inclusive(q)[i]
        /\ \A i \in 0..Len(q) : Part(q, i) + Sum(SubSeq(q, i + 1, Len(q))) = Sum(q)
        /\ Minus(Plus(q, p), p) = q /\ Plus(q, p) = Plus(p, q) /\ Times(q, p) = Times(p, q)
        /\ Sum(Plus(q, p)) = Sum(q) + Sum(p)
        /\ MapTo(Iota(Len(q)), q) = q
        /\ LET r == Reverse(Iota(Len(q))) IN MapTo(r, q) = Reverse(q) /\ Sum(MapTo(r, q)) = Sum(q) /\ MapTo(r, MapTo(r, q)) = q
        /\ \A i \in 0..(Len(q) - 1) : Pick(Plus(q, p), i) = Pick(q, i) + Pick(p, i)
        /\ All([i \in 1..Len(q) |-> Bit(q[i] = p[i])]) <=> q = p
CommonLaws == \A a, b, c \in Types : Common(a, b) = Common(b, a) /\ Common(a, a) = a /\ Common(Common(a, b), a) = Common(a, b)
Emit == PrintT(ToJson([q |-> q', p |-> p']))
=============================================================================
