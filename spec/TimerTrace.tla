------------------------------ MODULE TimerTrace -----------------------------
(* Recorded waits: requested and elapsed nanoseconds as four 16-bit chunks,      *)
(* least significant first; each interruption costs a little time of its own.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
B == INSTANCE Big
VARIABLES h, i
Hs == ndJsonDeserialize(IOEnv.TRACE)
Num(q) == B!FromChunks(<<q[4], q[3], q[2], q[1]>>)
Slack == B!MulAdd(B!FromInt(50000), 1000, 0)                  \* 50 ms
Leq(a, b) == B!Cmp(a, b) <= 0
Ev(k) == Hs[h].h[k]
Ok(k) == IF Ev(k).e = "c" THEN k < Len(Hs[h].h) /\ Ev(k + 1).e = "r"
         ELSE IF Ev(k).e = "r" THEN k > 1 /\ Ev(k - 1).e = "c" /\ Leq(Num(Ev(k - 1).q), Num(Ev(k).q)) /\ Leq(Num(Ev(k).q), B!Add(Num(Ev(k - 1).q), Slack))
         ELSE Ev(k).e = "end" /\ k = Len(Hs[h].h)
Init == h \in 1..Len(Hs) /\ i = 1 /\ TLCSet(h, 0)
Next == i <= Len(Hs[h].h) /\ Ok(i) /\ TLCSet(h, i) /\ i' = i + 1 /\ h' = h
HSpec == Init /\ [][Next]_<<h, i>>
Bad == {k \in 1..Len(Hs) : TLCGet(k) < Len(Hs[k].h)}
Report == /\ PrintT(<<"ACCEPTED", Len(Hs) - Cardinality(Bad), Len(Hs)>>)
          /\ \A k \in Bad : PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================
