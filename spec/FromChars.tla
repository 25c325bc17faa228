----------------------------- MODULE FromChars -----------------------------
(* fast_float::from_chars: the longest prefix of the range that is a number  *)
(* in the accepted format, and the nearest floating point value.             *)
EXTENDS Decimal
\* ---- accepted formats: fixed (no exponent needed), sci (an exponent accepted); the decimal point dp --------
Fmt(fixed, sci, dp) == [fixed |-> fixed, sci |-> sci, dp |-> dp]
\* ---- what a number is --------------------------------------------------------------------------------------
AllDigits(s, i, j) == \A k \in i..j : IsDigit(s[k])
Mantissa(s, i, j, dp) ==
    \E k \in i..(j + 1) : /\ AllDigits(s, i, k - 1)
                          /\ k = j + 1 \/ (s[k] = dp /\ AllDigits(s, k + 1, j))
                          /\ IF k = j + 1 THEN i <= j ELSE j > i
Exponent(s, i, j) ==
    /\ i < j /\ IsE(s[i])
    /\ LET b == IF s[i + 1] \in {Minus, Plus} THEN i + 2 ELSE i + 1 IN b <= j /\ AllDigits(s, b, j)
IsNum(s, f) ==
    LET b == IF s # <<>> /\ s[1] = Minus THEN 2 ELSE 1 n == Len(s)
    IN \/ f.fixed /\ Mantissa(s, b, n, f.dp)
       \/ f.sci /\ \E k \in b..n : Mantissa(s, b, k - 1, f.dp) /\ Exponent(s, k, n)
LongestNum(s, f) == LET ok == {k \in 1..Len(s) : IsNum(SubSeq(s, 1, k), f)} IN IF ok = {} THEN 0 ELSE CHOOSE k \in ok : \A j \in ok : j <= k
\* ---- the same by one pass over the characters, remembering the last accepting place --------------------------
Scan0 == [x |-> Lex0, k |-> 0, i |-> 0, best |-> Lex0]
Accept(x, f) == x.d # <<>> /\ ((f.fixed /\ x.s \in {"int", "frac"}) \/ (f.sci /\ x.s = "exp"))
ScanStep(f, a, c) ==
    LET cc == IF c = f.dp THEN Dot ELSE IF c = Dot THEN 0 ELSE c       \* the automaton of Decimal reads "."
        y == IF IsE(c) /\ ~f.sci THEN [a.x EXCEPT !.s = "bad"] ELSE Step(a.x, cc)
        i == a.i + 1
    IN IF a.x.s = "bad" THEN a
       ELSE IF Accept(y, f) THEN [x |-> y, k |-> i, i |-> i, best |-> y] ELSE [a EXCEPT !.x = y, !.i = i]
Scan(s, f) == FoldLeft(LAMBDA a, c : ScanStep(f, a, c), Scan0, s)
\* ---- nan and infinity, in either case ------------------------------------------------------------------------
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Has(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : Lower(s[i + k - 1]) = w[k]
WNan == <<110, 97, 110>>
WInf == <<105, 110, 102>>
WInity == <<105, 110, 105, 116, 121>>
Inside(c) == IsDigit(c) \/ Lower(c) \in 97..122 \/ c = 95
\* nan(n-char-sequence): where it ends, or the end of the word nan
NanEnd(s, i) ==
    LET e == {j \in (i + 1)..Len(s) : s[j] = 41 /\ \A k \in (i + 1)..(j - 1) : Inside(s[k])}
    IN IF i <= Len(s) /\ s[i] = 40 /\ e # {} THEN CHOOSE j \in e : TRUE ELSE i - 1
Special(s) ==
    LET neg == s # <<>> /\ s[1] = Minus b == IF neg THEN 2 ELSE 1
    IN IF Has(s, b, WNan) THEN [k |-> NanEnd(s, b + 3), neg |-> neg, what |-> "nan"]
       ELSE IF Has(s, b, WInf) THEN [k |-> IF Has(s, b + 3, WInity) THEN b + 7 ELSE b + 2, neg |-> neg, what |-> "inf"]
       ELSE [k |-> 0, neg |-> neg, what |-> "none"]
\* ---- the answer: characters consumed, error (0 none, 1 invalid), value ----------------------------------------
AnswerOK(f, fm, s, before, k, ec, w) ==
    LET a == Scan(s, fm) sp == Special(s) b == Unpack(f, w)
    IN IF a.k > 0
       THEN k = a.k /\ ec = 0 /\ a.best.neg = (b.sg = 1) /\ RoundsTo(f, FromDigits(a.best.d), E10(a.best), b)
       ELSE IF sp.what # "none"
       THEN /\ k = sp.k /\ ec = 0 /\ sp.neg = (b.sg = 1)
            /\ IF sp.what = "nan" THEN IsNaN(f, b) ELSE IsInf(f, b)
       ELSE k = 0 /\ ec = 1 /\ w = before
=============================================================================
