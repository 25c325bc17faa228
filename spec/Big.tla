-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size as sequences of base-10000 limbs, least      *)
(* significant limb first, without leading zero limbs (0 is <<>>).          *)
EXTENDS Integers, Sequences, SequencesExt
BB == 10000
Zero == <<>>
\* n < 2^31
RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o FromInt(n \div BB)
RECURSIVE CarryOut(_)
CarryOut(c) == IF c = 0 THEN <<>> ELSE <<c % BB>> \o CarryOut(c \div BB)
\* a * k + c for 0 <= k <= 200000 and 0 <= c <= 200000
MulAdd(a, k, c) ==
    IF k = 0 THEN FromInt(c)
    ELSE LET r == FoldLeft(LAMBDA acc, x : LET y == x * k + acc[1] IN <<y \div BB, Append(acc[2], y % BB)>>, <<c, <<>>>>, a)
         IN r[2] \o CarryOut(r[1])
MulSmall(a, k) == MulAdd(a, k, 0)
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxI(i, j) == IF i > j THEN i ELSE j
Add(a, b) ==
    LET n == MaxI(Len(a), Len(b))
        r == FoldLeftDomain(LAMBDA acc, i : LET y == Limb(a, i) + Limb(b, i) + acc[1] IN <<y \div BB, Append(acc[2], y % BB)>>,
                            <<0, <<>>>>, [i \in 1..n |-> 0])
    IN r[2] \o CarryOut(r[1])
Strip(a) == LET k == {i \in 1..Len(a) : a[i] # 0} IN IF k = {} THEN <<>> ELSE SubSeq(a, 1, CHOOSE i \in k : \A j \in k : j <= i)
\* a - b for a >= b
Sub(a, b) ==
    LET r == FoldLeftDomain(LAMBDA acc, i : LET y == a[i] - Limb(b, i) - acc[1]
                                            IN IF y < 0 THEN <<1, Append(acc[2], y + BB)>> ELSE <<0, Append(acc[2], y)>>,
                            <<0, <<>>>>, a)
    IN Strip(r[2])
Shift(a, k) == IF a = <<>> THEN <<>> ELSE [i \in 1..k |-> 0] \o a
\* schoolbook product, short operand first; Horner over its limbs from the top
Mul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE LET s == IF Len(a) <= Len(b) THEN a ELSE b
             t == IF Len(a) <= Len(b) THEN b ELSE a
         IN FoldLeft(LAMBDA acc, x : Add(Shift(acc, 1), MulSmall(t, x)), <<>>, Reverse(s))
\* -1, 0, 1
Cmp(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE FoldLeftDomain(LAMBDA acc, i : IF a[i] = b[i] THEN acc ELSE IF a[i] < b[i] THEN -1 ELSE 1, 0, a)
Odd(a) == a # <<>> /\ a[1] % 2 = 1
\* decimal digits, most significant first
FromDigits(d) == FoldLeft(LAMBDA acc, x : MulAdd(acc, 10, x), <<>>, d)
\* chunks of 16 bits, most significant first
FromChunks(w) == FoldLeft(LAMBDA acc, x : MulAdd(acc, 65536, x), <<>>, w)
\* powers
P13 == FoldLeftDomain(LAMBDA acc, i : Append(acc, MulSmall(acc[i], 8192)), << <<1>> >>, [i \in 1..100 |-> 0])
P2[i \in 0..13] == IF i = 0 THEN 1 ELSE 2 * P2[i - 1]
Pow2(k) == MulSmall(P13[(k \div 13) + 1], P2[k % 13])
P10[i \in 0..4] == IF i = 0 THEN 1 ELSE 10 * P10[i - 1]
TimesPow10(a, k) == Shift(MulSmall(a, P10[k % 4]), k \div 4)
=============================================================================
