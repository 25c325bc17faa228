------------------------------- MODULE Cost -------------------------------
(* What a history of operations on growable sequences (vector, valarray, string,           *)
(* stringstream) may cost.  Every operation has a weight - the number of elements it is     *)
(* asked to handle - and the guarantee is that the work done by any history is at most a    *)
(* constant times the sum of its weights, and the storage held at most a constant times     *)
(* the largest sizes the live objects have had.  The model is a store that doubles: it      *)
(* shows that the guarantee can be met by every history, with the potential function below; *)
(* the trace module accepts any growth policy and judges only weight, work and storage.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Max, Step
Slots == 1..N
VARIABLES sz,     \* size of each sequence, -1 while there is none
          pk,     \* the largest size its present storage has had to hold
          cp,     \* (model) capacity of that storage
          did     \* weight and (model) work of the last operation
vars == <<sz, pk, cp, did>>
Top(a, b) == IF a > b THEN a ELSE b
Alive(s) == sz[s] >= 0
\* ---- weights: what each operation is asked to handle
Weight(e) == CASE e.op = "new"   -> 1
               [] e.op = "push"  -> e.k
               [] e.op = "app"   -> e.k + 1
               [] e.op = "pop"   -> e.k
               [] e.op = "cut"   -> sz[e.s] - e.k + 1
               [] e.op = "clear" -> sz[e.s] + 1
               [] e.op = "erase" -> sz[e.s] - e.i + 2
               [] e.op = "copy"  -> sz[e.s] + sz[e.t] + 1
               [] e.op = "cons"  -> sz[e.t] + 1
               [] e.op = "self"  -> sz[e.s] + 1
               [] e.op = "swap"  -> 1
               [] e.op = "cmp"   -> (IF sz[e.s] < sz[e.t] THEN sz[e.s] ELSE sz[e.t]) + 1
               [] e.op = "obs"   -> e.k
               [] e.op = "del"   -> sz[e.s] + 1
\* operations that may not spend what earlier ones saved: each is bounded on its own
Alone(op) == op \in {"new", "pop", "clear", "erase", "cons", "swap", "cmp", "obs"}
Enabled(e) == CASE e.op = "new"   -> ~Alive(e.s)
                [] e.op = "cons"  -> ~Alive(e.s) /\ Alive(e.t)
                [] e.op \in {"copy", "swap", "cmp"} -> e.s # e.t /\ Alive(e.s) /\ Alive(e.t)
                [] e.op \in {"pop", "cut"} -> Alive(e.s) /\ e.k <= sz[e.s]
                [] e.op = "erase" -> Alive(e.s) /\ e.i \in 1..sz[e.s]
                [] OTHER -> Alive(e.s)
Size(e) == CASE e.op = "new"   -> 0
             [] e.op \in {"push", "app"} -> sz[e.s] + e.k
             [] e.op = "pop"   -> sz[e.s] - e.k
             [] e.op = "cut"   -> e.k
             [] e.op = "clear" -> 0
             [] e.op = "erase" -> sz[e.s] - 1
             [] e.op \in {"copy", "cons", "swap"} -> sz[e.t]
             [] e.op = "self"  -> 2 * sz[e.s]
             [] e.op = "del"   -> -1
             [] OTHER -> sz[e.s]
\* sizes and peaks after an operation
Sizes(e) == IF e.op = "swap" THEN [sz EXCEPT ![e.s] = sz[e.t], ![e.t] = sz[e.s]] ELSE [sz EXCEPT ![e.s] = Size(e)]
Peaks(e) == IF e.op = "swap" THEN [pk EXCEPT ![e.s] = pk[e.t], ![e.t] = pk[e.s]]
            ELSE IF e.op \in {"new", "del"} THEN [pk EXCEPT ![e.s] = 0]
            ELSE IF e.op = "cons" THEN [pk EXCEPT ![e.s] = sz[e.t]]
            ELSE [pk EXCEPT ![e.s] = Top(pk[e.s], Size(e))]
\* ---- the model: storage that doubles, or is made exactly as large as asked
Grown(c, n) == IF n <= c THEN c ELSE Top(n, 2 * c)
\* allocating and constructing new storage, and moving m elements into it
Regrow(c, n, m) == IF n <= c THEN 0 ELSE 2 * Grown(c, n) + m
RECURSIVE Fill(_, _, _)      \* <<work, capacity>> of k single appends to m elements in storage c
Fill(c, m, k) == IF k = 0 THEN <<0, c>>
                 ELSE LET r == Fill(Grown(c, m + 1), m + 1, k - 1)
                      IN  <<4 + Regrow(c, m + 1, m) + r[1], r[2]>>
ModelOf(e) == LET m == IF Alive(e.s) THEN sz[e.s] ELSE 0
                  c == cp[e.s]
              IN CASE e.op = "push"  -> Fill(c, m, e.k)
                   [] e.op = "app"   -> <<Regrow(c, m + e.k, m) + 2 * e.k, Grown(c, m + e.k)>>
                   [] e.op = "erase" -> <<m - e.i, c>>
                   [] e.op = "copy"  -> Fill(c, 0, sz[e.t])
                   [] e.op = "cons"  -> Fill(0, 0, sz[e.t])
                   [] e.op = "self"  -> Fill(c, m, m)
                   [] e.op = "del"   -> <<0, 0>>
                   [] OTHER -> <<Weight(e), c>>
Caps(e) == IF e.op = "swap" THEN [cp EXCEPT ![e.s] = cp[e.t], ![e.t] = cp[e.s]] ELSE [cp EXCEPT ![e.s] = ModelOf(e)[2]]
Ops == [op : {"new", "clear", "self", "del"}, s : Slots] \cup [op : {"push", "app"}, s : Slots, k : 1..Step] \cup [op : {"pop", "cut"}, s : Slots, k : 0..Max]
       \cup [op : {"erase"}, s : Slots, i : 1..Max] \cup [op : {"copy", "cons", "swap", "cmp"}, s : Slots, t : Slots]
Init == sz = [s \in Slots |-> -1] /\ pk = [s \in Slots |-> 0] /\ cp = [s \in Slots |-> 0] /\ did = [op |-> "start", w |-> 0, k |-> 0]
Do(e) == /\ Enabled(e)
         /\ sz' = Sizes(e) /\ pk' = Peaks(e) /\ cp' = Caps(e)
         /\ did' = [op |-> e.op, w |-> Weight(e), k |-> ModelOf(e)[1]]
Next == \E e \in Ops : Enabled(e) /\ Size(e) <= Max /\ Do(e)
Spec == Init /\ [][Next]_vars
View == <<sz, pk, cp>>
\* ---- why the bound holds: what appends have saved pays for the next reallocation
Half(s) == IF Alive(s) THEN Top(0, 2 * sz[s] - cp[s]) ELSE 0
RECURSIVE Saved(_)
Saved(s) == IF s = 0 THEN 0 ELSE 5 * Half(s) + Saved(s - 1)
Phi == Saved(N)
Rate == 30
Amortised == [][did'.k + Phi' - Phi <= Rate * did'.w]_vars
OnItsOwn == [][Alone(did'.op) => did'.k <= Rate * did'.w]_vars
Bounded == \A s \in Slots : cp[s] <= 2 * Top(1, pk[s])
=============================================================================
