------------------------------- MODULE LinMon -------------------------------
(* Linearizability monitor for design models: the set of all abstract           *)
(* configurations (state, pending operations) the calls and returns seen so far *)
(* allow.  A design is linearizable iff the set never becomes empty.            *)
EXTENDS Integers, FiniteSets
CONSTANTS Outcomes(_, _, _, _)                      \* state, pending operation, thread, time (unused)
Idle == [o |-> "-"]
Start(abs, T) == {[abs |-> abs, pend |-> [t \in T |-> Idle]]}
CallIn(C, t, op) == {[c EXCEPT !.pend[t] = [o |-> op.o, a |-> op.a, exp |-> FALSE, lin |-> FALSE, v |-> 0, ov |-> \E u \in DOMAIN c.pend : u # t /\ c.pend[u].o # "-"]] : c \in C}
Expire(C, t) == {[c EXCEPT !.pend[t].exp = TRUE] : c \in C}
Step(C) == C \cup UNION {UNION {{[c EXCEPT !.abs = x[1], !.pend[t].lin = TRUE, !.pend[t].v = x[2]] : x \in Outcomes(c.abs, c.pend[t], t, 0)}
                                  : t \in {u \in DOMAIN c.pend : c.pend[u].o # "-" /\ ~c.pend[u].lin}} : c \in C}
RECURSIVE Close(_)
Close(C) == LET D == Step(C) IN IF D = C THEN C ELSE Close(D)
RetFrom(C, t, v) == {[c EXCEPT !.pend[t] = Idle] : c \in {d \in Close(C) : d.pend[t].lin /\ d.pend[t].v = v}}
\* in some allowed configuration nobody can go on
MayBeStuck(C) == \E c \in Close(C) : \A t \in DOMAIN c.pend : c.pend[t].o = "-" \/ (~c.pend[t].lin /\ Outcomes(c.abs, c.pend[t], t, 0) = {})
=============================================================================
