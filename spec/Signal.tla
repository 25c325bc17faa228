------------------------------- MODULE Signal -------------------------------
(* Auto-reset events, as atomic objects.                                         *)
EXTENDS Integers
CONSTANTS Over(_, _)
SInit(n) == [k \in 0..(n - 1) |-> FALSE]
SOut(s, p, t, z) ==
  CASE p.o = "R" -> {<<[s EXCEPT ![p.a] = TRUE], 0>>}
    [] p.o = "W" -> IF s[p.a] THEN {<<[s EXCEPT ![p.a] = FALSE], 1>>}
                    ELSE IF Over(p, z) THEN {<<s, 0>>} ELSE {}
=============================================================================
