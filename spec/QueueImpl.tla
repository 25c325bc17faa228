------------------------------ MODULE QueueImpl ------------------------------
(* The design of thread_queue_t: an atomic count, ring indices each owned by     *)
(* one side, and two auto-reset signals (Signal.tla, atomic) that are raised     *)
(* when the count leaves 0 or leaves the capacity and may be stale.              *)
(* Checked against Queue.tla.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cap, Pre, MaxP, MaxC, Timed
Over(p, z) == p.exp
Q == INSTANCE Queue
L == INSTANCE LinMon WITH Outcomes <- Q!QOut
VARIABLES pc, count, head, tail, buf, ready, space, left, tmo, old, val, mon
vars == <<pc, count, head, tail, buf, ready, space, left, tmo, old, val, mon>>
P == 1
C == 2
Init == /\ pc = [t \in {P, C} |-> "idle"] /\ count = Pre /\ head = 0 /\ tail = Pre % Cap
        /\ buf = [k \in 0..(Cap - 1) |-> IF k < Pre THEN k + 1 ELSE 0] /\ ready = FALSE /\ space = FALSE
        /\ left = [t \in {P, C} |-> IF t = P THEN MaxP ELSE MaxC] /\ tmo = [t \in {P, C} |-> "no"] /\ old = [t \in {P, C} |-> 0] /\ val = 0
        /\ mon = L!Start(Q!QInit(Cap, Pre), {P, C})
Value(t) == 100 + left[t]
Call(t) == /\ pc[t] = "idle" /\ left[t] > 0
           /\ \E how \in IF Timed THEN {"inf", "zero", "run"} ELSE {"inf"} :
                /\ tmo' = [tmo EXCEPT ![t] = how]
                /\ mon' = LET m == L!CallIn(mon, t, [o |-> IF t = P THEN "P" ELSE "C", a |-> Value(t)]) IN IF how = "zero" THEN L!Expire(m, t) ELSE m
           /\ pc' = [pc EXCEPT ![t] = "test"] /\ UNCHANGED <<count, head, tail, buf, ready, space, left, old, val>>
Test(t) == /\ pc[t] = "test"
           /\ pc' = [pc EXCEPT ![t] = IF count # (IF t = P THEN Cap ELSE 0) THEN "move" ELSE IF tmo[t] = "zero" THEN "fail" ELSE "wait"]
           /\ UNCHANGED <<count, head, tail, buf, ready, space, left, tmo, old, val, mon>>
Wait(t) == /\ pc[t] = "wait"
           /\ \/ /\ IF t = P THEN space ELSE ready
                 /\ IF t = P THEN space' = FALSE /\ UNCHANGED ready ELSE ready' = FALSE /\ UNCHANGED space
                 /\ pc' = [pc EXCEPT ![t] = "test"]
              \/ /\ ~(IF t = P THEN space ELSE ready) /\ tmo[t] = "over" /\ pc' = [pc EXCEPT ![t] = "fail"] /\ UNCHANGED <<ready, space>>
           /\ UNCHANGED <<count, head, tail, buf, left, tmo, old, val, mon>>
Timer(t) == /\ tmo[t] = "run" /\ tmo' = [tmo EXCEPT ![t] = "over"] /\ mon' = L!Expire(mon, t)
            /\ UNCHANGED <<pc, count, head, tail, buf, ready, space, left, old, val>>
Move(t) == /\ pc[t] = "move" /\ pc' = [pc EXCEPT ![t] = "index"]
           /\ IF t = P THEN buf' = [buf EXCEPT ![tail] = Value(P)] /\ UNCHANGED val ELSE val' = buf[head] /\ UNCHANGED buf
           /\ UNCHANGED <<count, head, tail, ready, space, left, tmo, old, mon>>
Index(t) == /\ pc[t] = "index" /\ pc' = [pc EXCEPT ![t] = "count"]
            /\ IF t = P THEN tail' = (tail + 1) % Cap /\ UNCHANGED head ELSE head' = (head + 1) % Cap /\ UNCHANGED tail
            /\ UNCHANGED <<count, buf, ready, space, left, tmo, old, val, mon>>
Count(t) == /\ pc[t] = "count" /\ old' = [old EXCEPT ![t] = count] /\ count' = IF t = P THEN count + 1 ELSE count - 1
            /\ pc' = [pc EXCEPT ![t] = "raise"] /\ UNCHANGED <<head, tail, buf, ready, space, left, tmo, val, mon>>
Raise(t) == /\ pc[t] = "raise" /\ pc' = [pc EXCEPT ![t] = "done"]
            /\ IF t = P THEN ready' = (ready \/ old[t] = 0) /\ UNCHANGED space ELSE space' = (space \/ old[t] = Cap) /\ UNCHANGED ready
            /\ UNCHANGED <<count, head, tail, buf, left, tmo, old, val, mon>>
Ret(t) == /\ pc[t] \in {"done", "fail"} /\ mon' = L!RetFrom(mon, t, IF pc[t] = "fail" THEN 0 ELSE IF t = P THEN 1 ELSE val)
          /\ pc' = [pc EXCEPT ![t] = "idle"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ tmo' = [tmo EXCEPT ![t] = "no"] /\ old' = [old EXCEPT ![t] = 0]
          /\ UNCHANGED <<count, head, tail, buf, ready, space>> /\ val' = IF t = C THEN 0 ELSE val
Own(t) == Test(t) \/ Wait(t) \/ Move(t) \/ Index(t) \/ Count(t) \/ Raise(t) \/ Ret(t)
Next == \E t \in {P, C} : Call(t) \/ Own(t) \/ Timer(t)
Spec == Init /\ [][Next]_vars /\ \A t \in {P, C} : WF_vars(Own(t)) /\ WF_vars(Timer(t))
Linearizable == mon # {}
Bounded == count \in 0..Cap
\* the two sides never touch the same slot at the same time
Disjoint == ~(pc[P] = "move" /\ pc[C] = "move" /\ head = tail)
Quiet == \A t \in {P, C} : ~ENABLED Own(t) /\ ~ENABLED Timer(t)
NoLostWakeup == Quiet => /\ \A t \in {P, C} : pc[t] \in {"idle", "wait"}
                         /\ pc[C] = "wait" => count = 0
                         /\ pc[P] = "wait" => count = Cap
                         /\ L!MayBeStuck(mon)
Ends == \A t \in {P, C} : (pc[t] # "idle" /\ tmo[t] # "inf") ~> (pc[t] = "idle" \/ tmo[t] = "inf")
=============================================================================
