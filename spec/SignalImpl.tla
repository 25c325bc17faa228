------------------------------ MODULE SignalImpl -----------------------------
(* The design of thread_signal_t: a mutex, a condition variable and a flag.      *)
(* Raise: lock; value := 1; unlock; signal one.  Wait: lock; while not value:    *)
(* wait on the condition (atomically unlocking), leaving on timeout only if the  *)
(* flag is still down; take the flag; unlock.  Spurious wakeups and any choice   *)
(* of the woken waiter included.  Checked against Signal.tla.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, MaxOps, Timed, Spurious
Over(p, z) == p.exp
S == INSTANCE Signal
L == INSTANCE LinMon WITH Outcomes <- S!SOut
VARIABLES pc, owner, value, cq, left, tmo, spur, mon
vars == <<pc, owner, value, cq, left, tmo, spur, mon>>
Init == /\ pc = [t \in T |-> "idle"] /\ owner = 0 /\ value = FALSE /\ cq = {} /\ left = [t \in T |-> MaxOps] /\ spur = Spurious
        /\ tmo = [t \in T |-> "no"] /\ mon = L!Start(S!SInit(1), T)
Same == UNCHANGED <<left, spur>>
CallRaise(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "rlock"]
                /\ mon' = L!CallIn(mon, t, [o |-> "R", a |-> 0]) /\ UNCHANGED <<owner, value, cq, tmo, spur>>
\* how: "inf" never times out, "zero" has timed out already, "run" may time out at any moment
CallWait(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "wlock"]
               /\ \E how \in IF Timed THEN {"inf", "zero", "run"} ELSE {"inf"} :
                    /\ tmo' = [tmo EXCEPT ![t] = IF how = "zero" THEN "over" ELSE how]
                    /\ mon' = LET m == L!CallIn(mon, t, [o |-> "W", a |-> 0]) IN IF how = "zero" THEN L!Expire(m, t) ELSE m
               /\ UNCHANGED <<owner, value, cq, spur>>
Lock(t) == /\ pc[t] \in {"rlock", "wlock", "relock"} /\ owner = 0 /\ owner' = t
           /\ pc' = [pc EXCEPT ![t] = IF @ = "rlock" THEN "rset" ELSE IF @ = "wlock" THEN "wtest" ELSE "wagain"]
           /\ UNCHANGED <<value, cq, tmo, mon>> /\ Same
RSet(t) == /\ pc[t] = "rset" /\ value' = TRUE /\ pc' = [pc EXCEPT ![t] = "runlock"] /\ UNCHANGED <<owner, cq, tmo, mon>> /\ Same
RUnlock(t) == /\ pc[t] = "runlock" /\ owner' = 0 /\ pc' = [pc EXCEPT ![t] = "rsignal"] /\ UNCHANGED <<value, cq, tmo, mon>> /\ Same
RSignal(t) == /\ pc[t] = "rsignal"
              /\ \/ cq = {} /\ cq' = cq /\ pc' = [pc EXCEPT ![t] = "idle"]
                 \/ \E w \in cq : cq' = cq \ {w} /\ pc' = [pc EXCEPT ![t] = "idle", ![w] = "relock"]
              /\ mon' = L!RetFrom(mon, t, 0) /\ UNCHANGED <<owner, value, tmo>> /\ Same
WTest(t) == /\ pc[t] = "wtest"
            /\ IF value THEN pc' = [pc EXCEPT ![t] = "wtake"] /\ UNCHANGED <<owner, cq>>
               ELSE IF tmo[t] = "over" THEN pc' = [pc EXCEPT ![t] = "relock"] /\ owner' = 0 /\ UNCHANGED cq
               ELSE pc' = [pc EXCEPT ![t] = "cond"] /\ owner' = 0 /\ cq' = cq \cup {t}
            /\ UNCHANGED <<value, tmo, mon>> /\ Same
WAgain(t) == /\ pc[t] = "wagain"                     \* back from the condition wait, holding the mutex
             /\ pc' = [pc EXCEPT ![t] = IF tmo[t] = "over" /\ ~value THEN "wfail" ELSE "wtest"]
             /\ UNCHANGED <<owner, value, cq, tmo, mon>> /\ Same
WTake(t) == /\ pc[t] = "wtake" /\ value' = FALSE /\ pc' = [pc EXCEPT ![t] = "wok"] /\ UNCHANGED <<owner, cq, tmo, mon>> /\ Same
WDone(t) == /\ pc[t] \in {"wok", "wfail"} /\ owner' = 0 /\ pc' = [pc EXCEPT ![t] = IF @ = "wok" THEN "ret1" ELSE "ret0"]
            /\ UNCHANGED <<value, cq, tmo, mon>> /\ Same
WRet(t) == /\ pc[t] \in {"ret0", "ret1"} /\ mon' = L!RetFrom(mon, t, IF pc[t] = "ret1" THEN 1 ELSE 0)
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ tmo' = [tmo EXCEPT ![t] = "no"] /\ UNCHANGED <<owner, value, cq>> /\ Same
Timer(t) == /\ tmo[t] = "run" /\ tmo' = [tmo EXCEPT ![t] = "over"] /\ mon' = L!Expire(mon, t)
            /\ IF pc[t] = "cond" THEN pc' = [pc EXCEPT ![t] = "relock"] /\ cq' = cq \ {t} ELSE UNCHANGED <<pc, cq>>
            /\ UNCHANGED <<owner, value>> /\ Same
Spur(t) == /\ pc[t] = "cond" /\ spur > 0 /\ spur' = spur - 1 /\ pc' = [pc EXCEPT ![t] = "relock"] /\ cq' = cq \ {t}
           /\ UNCHANGED <<owner, value, tmo, mon, left>>
Own(t) == Lock(t) \/ RSet(t) \/ RUnlock(t) \/ RSignal(t) \/ WTest(t) \/ WAgain(t) \/ WTake(t) \/ WDone(t) \/ WRet(t)
Next == \E t \in T : CallRaise(t) \/ CallWait(t) \/ Own(t) \/ Timer(t) \/ Spur(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Own(t)) /\ WF_vars(Timer(t))
Linearizable == mon # {}
MutualExclusion == \A t, u \in T : t # u => ~(pc[t] \in {"rset", "runlock", "wtest", "wagain", "wtake", "wok", "wfail"} /\ pc[u] \in {"rset", "runlock", "wtest", "wagain", "wtake", "wok", "wfail"})
\* no lost wakeup: when nothing can move any more, the abstract signal is stuck too
Quiet == \A t \in T : ~ENABLED Own(t) /\ ~ENABLED Timer(t)
NoLostWakeup == Quiet => (\A t \in T : pc[t] \in {"idle", "cond"}) /\ L!MayBeStuck(mon) /\ ((\E t \in T : pc[t] = "cond") => ~value)
\* a wait with a timeout always ends
Ends == \A t \in T : (pc[t] # "idle" /\ tmo[t] # "inf") ~> (pc[t] = "idle" \/ tmo[t] = "inf")
=============================================================================
