------------------------------ MODULE Decimal ------------------------------
(* Decimal texts, binary floating point formats, and what correct rounding   *)
(* and shortest representation mean, in exact arithmetic.                    *)
EXTENDS Big
\* ---- binary formats: p fraction bits, eb exponent bits, c 16-bit chunks -----
Pw(k) == 2 ^ k
Single == [p |-> 23, eb |-> 8]
Double == [p |-> 52, eb |-> 11]
EMax(f) == Pw(f.eb) - 1
Bias(f) == Pw(f.eb - 1) - 1
\* a pattern: sign, exponent field, fraction field
Unpack(f, w) ==   \* w: chunks, most significant first
    LET hb == 15 - f.eb                      \* fraction bits in the first chunk
    IN [sg |-> w[1] \div 32768, ef |-> (w[1] \div Pw(hb)) % Pw(f.eb), fr |-> FromChunks(<<w[1] % Pw(hb)>> \o Tail(w))]
IsNaN(f, b) == b.ef = EMax(f) /\ b.fr # Zero
IsInf(f, b) == b.ef = EMax(f) /\ b.fr = Zero
IsZero(f, b) == b.ef = 0 /\ b.fr = Zero
\* magnitude m * 2^q
Sig(f, b) == IF b.ef = 0 THEN b.fr ELSE Add(b.fr, Pow2(f.p))
Exp(f, b) == (IF b.ef = 0 THEN 1 ELSE b.ef) - Bias(f) - f.p
\* the midpoint between a pattern and the next larger one
UpperMid(f, b) == [m |-> MulAdd(Sig(f, b), 2, 1), q |-> Exp(f, b) - 1]
\* the midpoint between a pattern (not zero) and the next smaller one
LowerMid(f, b) ==
    IF b.fr # Zero THEN [m |-> Sub(MulSmall(Sig(f, b), 2), <<1>>), q |-> Exp(f, b) - 1]
    ELSE IF b.ef = 1 THEN [m |-> Sub(Pow2(f.p + 1), <<1>>), q |-> Exp(f, b) - 1]
    ELSE [m |-> Sub(Pow2(f.p + 2), <<1>>), q |-> Exp(f, b) - 2]
\* ---- comparing D * 10^E with m * 2^q -------------------------------------------
NDig(D) == IF D = Zero THEN 0 ELSE 4 * (Len(D) - 1) + (IF D[Len(D)] > 999 THEN 4 ELSE IF D[Len(D)] > 99 THEN 3 ELSE IF D[Len(D)] > 9 THEN 2 ELSE 1)
Scale2(a, q) == IF q > 0 THEN Mul(a, Pow2(q)) ELSE a
Scale10(a, e) == IF e > 0 THEN TimesPow10(a, e) ELSE a
CmpDB(D, E, m, q) ==
    IF D = Zero THEN (IF m = Zero THEN 0 ELSE -1)
    ELSE IF m = Zero THEN 1
    ELSE IF NDig(D) + E > 330 THEN 1
    ELSE IF NDig(D) + E < -345 THEN -1
    ELSE Cmp(Scale2(Scale10(D, E), -q), Scale2(Scale10(m, -E), q))
\* ---- correct rounding, to nearest, ties to even ----------------------------------
\* the magnitude D * 10^E rounds to pattern b (infinity is the pattern above the largest number)
RoundsTo(f, D, E, b) ==
    /\ ~IsNaN(f, b)
    /\ IF IsInf(f, b) THEN TRUE
       ELSE LET u == UpperMid(f, b) c == CmpDB(D, E, u.m, u.q) IN c < 0 \/ (c = 0 /\ ~Odd(b.fr))
    /\ IF IsZero(f, b) THEN TRUE
       ELSE LET l == LowerMid(f, b) c == CmpDB(D, E, l.m, l.q) IN c > 0 \/ (c = 0 /\ ~Odd(b.fr))
\* ---- shortest text --------------------------------------------------------------
Div10(D) == LET r == FoldLeft(LAMBDA acc, x : LET y == acc[1] * BB + x IN <<y % 10, <<y \div 10>> \o acc[2]>>, <<0, <<>>>>, Reverse(D)) IN Strip(r[2])
NoShorter(f, D, E, b) == LET d == Div10(D) IN ~RoundsTo(f, d, E + 1, b) /\ ~RoundsTo(f, Add(d, <<1>>), E + 1, b)
Closest(f, D, E, b) ==
    LET m == Sig(f, b) q == Exp(f, b)
    IN IF CmpDB(D, E, m, q) <= 0
       THEN CmpDB(MulAdd(D, 2, 1), E, m, q + 1) >= 0 \/ ~RoundsTo(f, Add(D, <<1>>), E, b)
       ELSE CmpDB(Sub(MulSmall(D, 2), <<1>>), E, m, q + 1) <= 0 \/ ~RoundsTo(f, Sub(D, <<1>>), E, b)
\* ---- texts, as sequences of character codes ---------------------------------------
Minus == 45
Plus == 43
Dot == 46
IsDigit(c) == c \in 48..57
IsE(c) == c = 69 \/ c = 101
\* the reader of decimal texts, an automaton over the characters
Lex0 == [s |-> "start", neg |-> FALSE, d |-> <<>>, frac |-> 0, eneg |-> FALSE, e |-> 0, ed |-> 0]
Step(x, c) ==
    CASE x.s \in {"start", "int"} /\ IsDigit(c) -> [x EXCEPT !.s = "int", !.d = Append(@, c - 48)]
      [] x.s = "start" /\ c = Minus /\ ~x.neg -> [x EXCEPT !.neg = TRUE]
      [] x.s \in {"start", "int"} /\ c = Dot -> [x EXCEPT !.s = "frac"]
      [] x.s = "frac" /\ IsDigit(c) -> [x EXCEPT !.d = Append(@, c - 48), !.frac = @ + 1]
      [] x.s \in {"int", "frac"} /\ x.d # <<>> /\ IsE(c) -> [x EXCEPT !.s = "e"]
      [] x.s = "e" /\ c \in {Minus, Plus} -> [x EXCEPT !.s = "esign", !.eneg = (c = Minus)]
      [] x.s \in {"e", "esign", "exp"} /\ IsDigit(c) -> [x EXCEPT !.s = "exp", !.e = IF @ > 99999 THEN @ ELSE 10 * @ + (c - 48), !.ed = IF @ = 0 /\ c = 48 THEN 0 ELSE @ + 1]
      [] OTHER -> [x EXCEPT !.s = "bad"]
Lex(t) == FoldLeft(Step, Lex0, t)
IsNumber(x) == x.s \in {"int", "frac", "exp"} /\ x.d # <<>>
\* an exponent mark without exponent digits is left open: readers may take it or refuse it
IsOpen(x) == x.s \in {"e", "esign"}
E10(x) == (IF x.eneg THEN -x.e ELSE x.e) - x.frac
Lead(d) == SelectSeq([i \in 1..Len(d) |-> IF \A j \in 1..i : d[j] = 0 THEN -1 ELSE d[i]], LAMBDA y : y >= 0)
=============================================================================
