------------------------------- MODULE Thread --------------------------------
(* Life of threads: created by thread_create(arg) into a handle slot, started   *)
(* once with that argument, finished with a code, joined, destroyed; identities. *)
EXTENDS Integers, Sequences, FiniteSets
\* fails: set of indices of creations that the system refuses
TInit(fails) == [n |-> 0, fails |-> fails, th |-> <<>>, slot |-> <<>>, run |-> [t \in {0} |-> -1], id |-> <<>>]
New == [st |-> "created", code |-> 0, tid |-> -1, gone |-> FALSE]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Alive(s, t) == t = 0 \/ (t \in DOMAIN s.run /\ s.th[s.run[t]].st = "running")
TOut(s, p, t, z) ==
  CASE p.o = "K" -> IF s.n \in s.fails THEN {<<[s EXCEPT !.n = @ + 1], 0>>}
                    ELSE {<<[s EXCEPT !.n = @ + 1, !.th = With(@, p.b, New), !.slot = With(@, p.a, p.b)], 1>>}
    [] p.o = "J" -> LET k == s.slot[p.a] IN IF s.th[k].st = "done" /\ ~s.th[k].gone THEN {<<s, s.th[k].code>>} ELSE {}
    [] p.o = "D" -> LET k == s.slot[p.a] IN IF s.th[k].st = "done" /\ ~s.th[k].gone THEN {<<[s EXCEPT !.th[k].gone = TRUE], 0>>} ELSE {}
    [] p.o = "I" -> IF t \in DOMAIN s.id THEN {<<s, s.id[t]>>}
                    ELSE {<<[s EXCEPT !.id = With(@, t, k)], k>> : k \in {x \in 0..8 : \A u \in DOMAIN s.id : Alive(s, u) => s.id[u] # x}}
TObs(s, e) ==
  CASE e.e = "s" -> IF e.a \in DOMAIN s.th /\ s.th[e.a].st = "created" /\ e.t \notin DOMAIN s.run
                       /\ (e.a % 4 \in {2, 3} => e.k >= 32)                     \* asked for a 32 MiB stack
                    THEN {[s EXCEPT !.th[e.a].st = "running", !.th[e.a].tid = e.t, !.run = With(@, e.t, e.a)]} ELSE {}
    [] e.e = "f" -> IF e.t \in DOMAIN s.run /\ e.t # 0 /\ s.th[s.run[e.t]].st = "running"
                    THEN {[s EXCEPT !.th[s.run[e.t]].st = "done", !.th[s.run[e.t]].code = e.v]} ELSE {}
    [] e.e = "rel" -> LET gone == {k \in DOMAIN s.th : s.th[k].gone}
                          rel == {e.q[k] : k \in 1..Len(e.q)} IN
                      IF /\ {s.th[k].tid : k \in gone} \subseteq rel             \* destroyed: released
                         /\ \A k \in DOMAIN s.th : s.th[k].st = "done"           \* everything created has run
                         /\ e.d = Cardinality(gone)
                         /\ (gone = DOMAIN s.th => e.v = 0)                      \* and no memory is kept
                      THEN {s} ELSE {}
    [] OTHER -> {}
=============================================================================
