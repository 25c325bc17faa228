------------------------------ MODULE TimerImpl ------------------------------
(* The design of thread_timer_wait: sleep for req; while interrupted, sleep for  *)
(* what the kernel says remains.  The kernel may interrupt a sleep at any time,  *)
(* any number of times (bounded here), never reports less than what remains, and *)
(* time may pass between two calls.                                              *)
EXTENDS Integers
CONSTANTS MaxReq, MaxIntr, Late
VARIABLES req, want, slept, now, start, intr, pc, lost
vars == <<req, want, slept, now, start, intr, pc, lost>>
Init == want \in 0..MaxReq /\ req = want /\ slept = 0 /\ now = 0 /\ start = 0 /\ intr = 0 /\ pc = "call" /\ lost = 0
Sleep == /\ pc = "call" /\ pc' = "asleep" /\ slept' = 0 /\ UNCHANGED <<req, want, now, start, intr, lost>>
Tick == /\ pc = "asleep" /\ slept < req /\ now' = now + 1 /\ slept' = slept + 1 /\ UNCHANGED <<req, want, start, intr, pc, lost>>
Wake == /\ pc = "asleep" /\ slept >= req /\ pc' = "done" /\ UNCHANGED <<req, want, slept, now, start, intr, lost>>
Interrupt == /\ pc = "asleep" /\ slept < req /\ intr < MaxIntr /\ intr' = intr + 1 /\ req' = req - slept /\ pc' = "call" /\ UNCHANGED <<want, slept, now, start, lost>>
Delay == /\ pc = "call" /\ lost < Late /\ now' = now + 1 /\ lost' = lost + 1 /\ UNCHANGED <<req, want, slept, start, intr, pc>>
Next == Sleep \/ Tick \/ Wake \/ Interrupt \/ Delay
Spec == Init /\ [][Next]_vars /\ WF_vars(Sleep \/ Tick \/ Wake)
NotEarly == pc = "done" => now - start >= want
NotLate == pc = "done" => now - start <= want + lost
Returns == <>(pc = "done")
=============================================================================
