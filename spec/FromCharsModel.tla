--------------------------- MODULE FromCharsModel ---------------------------
(* All short texts: the one-pass reader finds the longest number.  Every     *)
(* text is printed, so that the real function can be asked about all of them. *)
EXTENDS FromChars, TLC, Json
CONSTANTS Chars, MaxLen
VARIABLE t
Formats == {Fmt(TRUE, TRUE, 46), Fmt(TRUE, FALSE, 46), Fmt(FALSE, TRUE, 46), Fmt(TRUE, TRUE, 44)}
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Chars : t' = Append(t, c)
Longest == \A f \in Formats : Scan(t, f).k = LongestNum(t, f)
\* a number is never also a special word, and reading the number alone consumes all of it
Apart == \A f \in Formats : Scan(t, f).k > 0 => Special(t).what = "none"
Prefix == \A f \in Formats : LET k == Scan(t, f).k IN k > 0 => Scan(SubSeq(t, 1, k), f) = [Scan(SubSeq(t, 1, k), f) EXCEPT !.k = k] /\ Scan(SubSeq(t, 1, k), f).best = Scan(t, f).best
\* the general format reads at least what either of the others reads
General == \A f \in {Fmt(TRUE, FALSE, 46), Fmt(FALSE, TRUE, 46)} : Scan(t, Fmt(TRUE, TRUE, 46)).k >= Scan(t, f).k
Emit == PrintT(ToJson([q |-> t']))
=============================================================================
