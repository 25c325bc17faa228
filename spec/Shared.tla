------------------------------- MODULE Shared -------------------------------
(* Threads that use objects of the library and only synchronise now and then.  A program    *)
(* follows the rule of every C++ library: between two synchronisations an object that one    *)
(* thread changes is not used by another one; any number of threads may read an object, and  *)
(* different objects are independent.  The library's part of the bargain is its footprint:   *)
(* an operation writes only memory of the objects it changes and reads only memory of the    *)
(* objects it is given and constants.  A race - two threads touching the same memory between  *)
(* two synchronisations, at least one writing - is then impossible.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, T
VARIABLES live,   \* live[s]: object s exists
          chg,    \* chg[s]: threads that changed object s since the last synchronisation
          rd,     \* rd[s]: threads that read it
          mem,    \* (thread, cell, way) accesses since the last synchronisation
          ev
vars == <<live, chg, rd, mem, ev>>
Slots == 1..N
Threads == 1..T
\* what an operation changes and what it reads, by the arguments it names
Changes(e) == IF e.op \in {"new", "del", "set", "copy"} THEN {e.s} ELSE IF e.op = "swap" THEN {e.s, e.u} ELSE {}
Reads(e) == IF e.op = "get" THEN {e.s} ELSE IF e.op = "get2" THEN {e.s, e.u} ELSE IF e.op = "copy" THEN {e.u} ELSE {}
Exists(e) == IF e.op = "new" THEN ~live[e.s] ELSE \A s \in Changes(e) \cup Reads(e) : live[s]
\* the program's part: never two threads on an object one of them changes
Disciplined(e) == /\ \A s \in Changes(e) : chg[s] \cup rd[s] \subseteq {e.th}
                  /\ \A s \in Reads(e) : chg[s] \subseteq {e.th}
\* the library's part
Touches(e) == {<<e.th, s, "w">> : s \in Changes(e)} \cup {<<e.th, s, "r">> : s \in Changes(e) \cup Reads(e) \cup {0}}
Ops == [op : {"new", "del", "get", "set"}, th : Threads, s : Slots]
       \cup [op : {"get2"}, th : Threads, s : Slots, u : Slots]
       \cup {e \in [op : {"copy", "swap"}, th : Threads, s : Slots, u : Slots] : e.s # e.u}
       \cup [op : {"fn"}, th : Threads]
       \cup {[op |-> "sync"]}
Init == live = [s \in Slots |-> FALSE] /\ chg = [s \in Slots |-> {}] /\ rd = [s \in Slots |-> {}] /\ mem = {} /\ ev = [op |-> "start"]
Track(e) == /\ live' = [s \in Slots |-> IF e.op \in {"new", "del"} /\ e.s = s THEN e.op = "new" ELSE live[s]]
            /\ chg' = [s \in Slots |-> IF s \in Changes(e) THEN chg[s] \cup {e.th} ELSE chg[s]]
            /\ rd' = [s \in Slots |-> IF s \in Reads(e) THEN rd[s] \cup {e.th} ELSE rd[s]]
Forget == chg' = [s \in Slots |-> {}] /\ rd' = [s \in Slots |-> {}]
Do(e) == IF e.op = "sync" THEN Forget /\ mem' = {} /\ UNCHANGED live
         ELSE Exists(e) /\ Disciplined(e) /\ Track(e) /\ mem' = mem \cup Touches(e)
Next == \E e \in Ops : Do(e) /\ ev' = e
Spec == Init /\ [][Next]_vars
Race == \E a, b \in mem : a[1] # b[1] /\ a[2] = b[2] /\ "w" \in {a[3], b[3]}
Safe == ~Race
\* a change is seen by at most one thread until the next synchronisation
Exclusive == \A s \in Slots : chg[s] # {} => Cardinality(chg[s] \cup rd[s]) = 1
\* no progress is lost to the rule: after a synchronisation anything that exists may be used by anyone
Free == ev.op = "sync" => \A e \in Ops \ {[op |-> "sync"]} : Exists(e) => Disciplined(e)
View == <<live, chg, rd, ev.op = "sync">>
Proj(l, c, r) == [live |-> l, chg |-> c, rd |-> r]
Emit == PrintT(ToJson([from |-> Proj(live, chg, rd), ev |-> ev', to |-> Proj(live', chg', rd')]))
=============================================================================
