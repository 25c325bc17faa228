-------------------------------- MODULE Conc --------------------------------
(* Concurrent objects as linearizable state machines with time.                 *)
(*                                                                              *)
(* An object is given by its initial state Abs0(par) and by Outcomes(a,p,t,z):  *)
(* the set of <<state', result>> with which the pending operation p of thread t *)
(* may take effect in state a not later than at time z (the empty set: it is    *)
(* blocked).  A history is a sequence of call and return events with virtual    *)
(* times.  It is accepted iff every operation can be given one instant between  *)
(* its call and its return at which it takes effect, such that each returns its *)
(* result; time only passes when every pending operation is blocked and none    *)
(* is past its deadline (unless the schedule delayed threads on purpose); and   *)
(* the program only gets stuck when every pending operation is blocked.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Abs0(_), Outcomes(_, _, _, _), Extra(_, _), Timeout(_)
VARIABLES h, i, now, abs, pend
hvars == <<h, i, now, abs, pend>>

Hs == ndJsonDeserialize(IOEnv.TRACE)
Threads == 0..8
None == [o |-> "-"]
Slack == 5000                                          \* microseconds

\* times are <<seconds, microseconds>>
LeqZ(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
PlusMs(x, ms) == LET u == x[2] + (ms % 1000) * 1000 IN <<x[1] + (ms \div 1000) + (u \div 1000000), u % 1000000>>
PlusUs(x, us) == LET u == x[2] + us IN <<x[1] + (u \div 1000000), u % 1000000>>
Deadline(p) == PlusMs(p.z, Timeout(p))
Expired(p, z) == Timeout(p) >= 0 /\ LeqZ(Deadline(p), PlusUs(z, 2))   \* clock readings are whole microseconds

E(k) == Hs[h].h[k]
N == Len(Hs[h].h)
NextZ == Hs[h].zs[i + 1]                                \* time of event i (filled in by the recorder)

Active(t) == pend[t].o # "-"
Waiting(t) == Active(t) /\ ~pend[t].lin
Blocked(t, z) == ~Active(t) \/ (Waiting(t) /\ Outcomes(abs, pend[t], t, z) = {})

HInit == /\ h \in 1..Len(Hs) /\ i = 1 /\ now = <<0, 0>> /\ TLCSet(h, 0)
         /\ abs = Abs0(Hs[h].par)
         /\ pend = [t \in Threads |-> None]

\* Time passes, up to the next observation.  More than a clock reading takes only passes
\* when every pending operation is blocked, and not beyond a deadline.
Pass == /\ now # NextZ
        /\ \/ LeqZ(NextZ, PlusUs(now, 1000))
           \/ Hs[h].eager = 1
           \/ \A t \in Threads : Blocked(t, now) /\ (Waiting(t) /\ Timeout(pend[t]) >= 0 => LeqZ(NextZ, PlusUs(Deadline(pend[t]), Slack)))
        /\ now' = NextZ
        /\ UNCHANGED <<h, i, abs, pend>>

Call == /\ E(i).e = "c"
        /\ LET t == E(i).t IN
           /\ ~Active(t)
           /\ pend' = [u \in Threads |-> IF u = t THEN [o |-> E(i).o, a |-> E(i).a, b |-> E(i).b, z |-> E(i).z, lin |-> FALSE, v |-> 0, ov |-> \E w \in Threads : Active(w)]
                                         ELSE IF Active(u) THEN [pend[u] EXCEPT !.ov = TRUE] ELSE pend[u]]
        /\ UNCHANGED abs
Ret == /\ E(i).e = "r"
       /\ LET t == E(i).t IN
          /\ Active(t) /\ pend[t].lin /\ pend[t].v = E(i).v
          /\ pend' = [pend EXCEPT ![t] = None]
       /\ UNCHANGED abs
Observe == /\ E(i).e \notin {"c", "r", "end", "stuck"}
           /\ \E x \in Extra(abs, E(i)) : abs' = x
           /\ UNCHANGED pend
End == /\ E(i).e = "end" /\ \A t \in Threads : ~Active(t)
       /\ UNCHANGED <<abs, pend>>
Stuck == /\ E(i).e = "stuck" /\ \A t \in Threads : Blocked(t, NextZ) /\ (Waiting(t) => Timeout(pend[t]) < 0)
         /\ UNCHANGED <<abs, pend>>
Observed == /\ now = NextZ
            /\ (Call \/ Ret \/ Observe \/ End \/ Stuck)
            /\ i' = i + 1 /\ UNCHANGED <<h, now>>
            /\ TLCSet(h, IF TLCGet(h) > i THEN TLCGet(h) ELSE i)

\* An operation takes effect.  Delaying that until the next observation that is not a call
\* loses nothing, because a call never disables anything.
Effect == /\ E(i).e # "c" /\ now = NextZ
          /\ \E t \in Threads : /\ Waiting(t)
                                /\ \E x \in Outcomes(abs, pend[t], t, NextZ) :
                                     /\ abs' = x[1]
                                     /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].v = x[2]]
          /\ UNCHANGED <<h, i, now>>
HNext == i <= N /\ TLCGet(h) < N /\ (Pass \/ Observed \/ Effect)
HSpec == HInit /\ [][HNext]_hvars
Bad == {k \in 1..Len(Hs) : TLCGet(k) < Len(Hs[k].h)}
Report == /\ PrintT(<<"ACCEPTED", Len(Hs) - Cardinality(Bad), Len(Hs)>>)
          /\ \A k \in Bad : PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================
