-------------------------------- MODULE Mutex --------------------------------
(* Mutexes with the data they protect (a counter each), as atomic objects.       *)
EXTENDS Integers
Free == -1
MInit(n) == [k \in 0..(n - 1) |-> [holder |-> Free, n |-> 0]]
MOut(s, p, t, z) ==
  CASE p.o = "L" -> IF s[p.a].holder = Free THEN {<<[s EXCEPT ![p.a].holder = t], 0>>} ELSE {}
    [] p.o = "U" -> IF s[p.a].holder = t THEN {<<[s EXCEPT ![p.a].holder = Free], 0>>} ELSE {}
    [] p.o = "I" -> IF s[p.a].holder = t THEN {<<[s EXCEPT ![p.a].n = @ + 1], s[p.a].n>>} ELSE {}
=============================================================================
