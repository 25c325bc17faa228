------------------------------- MODULE Queue --------------------------------
(* The bounded queue between one producer and one consumer, as an atomic object. *)
EXTENDS Integers, Sequences
CONSTANTS Over(_, _)                     \* Over(p, z): the timeout of p has elapsed at z
QInit(cap, pre) == [cap |-> cap, q |-> [k \in 1..(IF pre > cap THEN cap ELSE pre) |-> k]]
QOut(s, p, t, z) ==
  CASE p.o = "P" -> IF Len(s.q) < s.cap THEN {<<[s EXCEPT !.q = Append(@, p.a)], 1>>}
                    ELSE IF Over(p, z) THEN {<<s, 0>>} ELSE {}
    [] p.o = "C" -> IF s.q # <<>> THEN {<<[s EXCEPT !.q = Tail(@)], Head(s.q)>>}
                    ELSE IF Over(p, z) THEN {<<s, 0>>} ELSE {}
    [] p.o = "Z" -> {<<[s EXCEPT !.q = <<>>], 0>>}    \* many produce/consume pairs in a row, then emptied
    [] p.o = "N" -> {<<s, k>> : k \in IF p.ov THEN 0..s.cap ELSE {Len(s.q)}}
=============================================================================
