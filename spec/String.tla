------------------------------- MODULE String -------------------------------
(* basic_string<char>: N string variables, each holding a finite sequence of unsigned *)
(* character codes 0..255.  C strings end at their first NUL; strings do not.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Chars, MaxLen
VARIABLES slots, res, ev
vars == <<slots, res, ev>>
Slot == 1..N
Dead == [a |-> 0, c |-> <<>>]
Alive(s) == slots[s].a = 1
C(s) == slots[s].c
Put(s, q) == slots' = [slots EXCEPT ![s] = [a |-> 1, c |-> q]]
NoRes == res' = <<>>
Same == slots' = slots

\* what a C string q denotes: the characters in front of its first NUL
CStr(q) == IF \E i \in 1..Len(q) : q[i] = 0 THEN SubSeq(q, 1, (CHOOSE i \in 1..Len(q) : q[i] = 0 /\ \A j \in 1..(i - 1) : q[j] # 0) - 1) ELSE q
NoNul(q) == \A i \in 1..Len(q) : q[i] # 0
---------------------------------------------------------------------------
\* three-way lexicographic comparison of byte sequences
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)
B(x) == IF x THEN 1 ELSE 0
\* compare, ==, !=, <, >
Relations(a, b) == LET k == Cmp(a, b) IN <<k, B(k = 0), B(k # 0), B(k < 0), B(k > 0)>>
\* the same for strings given as runs <<character, length>>: long ones need not be spelled out
RECURSIVE CmpRuns(_, _)
CmpRuns(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
  ELSE IF b = <<>> THEN 1
  ELSE LET x == Head(a) y == Head(b) m == IF x[2] < y[2] THEN x[2] ELSE y[2]
           rest(r) == IF Head(r)[2] = m THEN Tail(r) ELSE <<<<Head(r)[1], Head(r)[2] - m>>>> \o Tail(r)
       IN IF x[1] < y[1] THEN -1 ELSE IF x[1] > y[1] THEN 1 ELSE CmpRuns(rest(a), rest(b))
RelationsOf(k) == <<k, B(k = 0), B(k # 0), B(k < 0), B(k > 0)>>
RECURSIVE Runs(_)
Runs(q) == IF q = <<>> THEN <<>>
           ELSE LET r == Runs(Tail(q)) IN IF r # <<>> /\ Head(r)[1] = Head(q) THEN <<<<Head(q), Head(r)[2] + 1>>>> \o Tail(r) ELSE <<<<Head(q), 1>>>> \o r
AllStrings(chars, n) == UNION {[1..k -> chars] : k \in 0..n}
TotalOrder(S) ==
  /\ \A a, b \in S : Cmp(a, b) = -Cmp(b, a)
  /\ \A a, b \in S : Cmp(a, b) = 0 <=> a = b
  /\ \A a, b, c \in S : Cmp(a, b) < 0 /\ Cmp(b, c) < 0 => Cmp(a, c) < 0
  /\ \A a, b \in S : (a # b /\ Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a) => Cmp(a, b) = -1
---------------------------------------------------------------------------
Init == slots = [s \in Slot |-> Dead] /\ res = <<>> /\ ev = [op |-> "Init"]
New(s)           == ~Alive(s) /\ Put(s, <<>>) /\ NoRes
NewCStr(s, q)    == ~Alive(s) /\ Put(s, CStr(q)) /\ NoRes
NewCount(s, q, k) == ~Alive(s) /\ k <= Len(q) /\ Put(s, SubSeq(q, 1, k)) /\ NoRes
NewRange(s, q, i, j) == ~Alive(s) /\ 0 <= i /\ i <= j /\ j <= Len(q) /\ Put(s, SubSeq(q, i + 1, j)) /\ NoRes
NewCopy(s, t)    == ~Alive(s) /\ Alive(t) /\ Put(s, C(t)) /\ NoRes
\* t is used up: moved into s and destroyed
Move(s, t)       == slots' = [slots EXCEPT ![s] = [a |-> 1, c |-> C(t)], ![t] = Dead] /\ NoRes
NewTake(s, t)    == ~Alive(s) /\ Alive(t) /\ Move(s, t)
TakeAssign(s, t) == Alive(s) /\ Alive(t) /\ s # t /\ Move(s, t)
Destroy(s)       == Alive(s) /\ slots' = [slots EXCEPT ![s] = Dead] /\ NoRes
CopyAssign(s, t) == Alive(s) /\ Alive(t) /\ Put(s, C(t)) /\ NoRes
AssignC(s, q)    == Alive(s) /\ Put(s, CStr(q)) /\ NoRes
Concat(s, t, u)  == Alive(s) /\ Alive(t) /\ Alive(u) /\ Put(s, C(t) \o C(u)) /\ NoRes
Append_(s, t)    == Alive(s) /\ Alive(t) /\ Put(s, C(s) \o C(t)) /\ NoRes
AppendC(s, q)    == Alive(s) /\ Put(s, C(s) \o CStr(q)) /\ NoRes
Write(s, i, x)   == Alive(s) /\ i \in 0..(Len(C(s)) - 1) /\ Put(s, [C(s) EXCEPT ![i + 1] = x]) /\ NoRes
WriteVia(s, i, x, how) == Write(s, i, x)
Erase(s, i)      == /\ Alive(s) /\ i \in 0..(Len(C(s)) - 1)
                    /\ Put(s, SubSeq(C(s), 1, i) \o SubSeq(C(s), i + 2, Len(C(s)))) /\ res' = <<i>>
Clear(s)         == Alive(s) /\ Put(s, <<>>) /\ NoRes
\* the order of strings with NUL characters in them is not specified
Compare(s, t)    == Alive(s) /\ Alive(t) /\ NoNul(C(s)) /\ NoNul(C(t)) /\ Same /\ res' = Relations(C(s), C(t))
\* two strings p and q given as runs; as strings, and the second as a C string
ComparePair(p, q) == Same /\ res' = RelationsOf(CmpRuns(p, q)) \o RelationsOf(CmpRuns(p, q)) \o RelationsOf(CmpRuns(q, p))
CompareC(s, q)   == Alive(s) /\ NoNul(C(s)) /\ NoNul(q) /\ Same /\ res' = Relations(C(s), q)
Reset            == slots' = [s \in Slot |-> Dead] /\ NoRes

Do(e) ==
  \/ e.op = "new" /\ New(e.s)
  \/ e.op = "newc" /\ NewCStr(e.s, e.q)
  \/ e.op = "newn" /\ NewCount(e.s, e.q, e.k)
  \/ e.op = "newr" /\ NewRange(e.s, e.q, e.i, e.j)
  \/ e.op = "newcopy" /\ NewCopy(e.s, e.t)
  \/ e.op = "newtake" /\ NewTake(e.s, e.t)
  \/ e.op = "takeassign" /\ TakeAssign(e.s, e.t)
  \/ e.op = "del" /\ Destroy(e.s)
  \/ e.op = "copyassign" /\ CopyAssign(e.s, e.t)
  \/ e.op = "assignc" /\ AssignC(e.s, e.q)
  \/ e.op = "concat" /\ Concat(e.s, e.t, e.u)
  \/ e.op = "append" /\ Append_(e.s, e.t)
  \/ e.op = "appendc" /\ AppendC(e.s, e.q)
  \/ e.op = "write" /\ WriteVia(e.s, e.i, e.x, e.how)
  \/ e.op = "erase" /\ Erase(e.s, e.i)
  \/ e.op = "clear" /\ Clear(e.s)
  \/ e.op = "compare" /\ Compare(e.s, e.t)
  \/ e.op = "runpair" /\ ComparePair(e.p, e.q)
  \/ e.op = "comparec" /\ CompareC(e.s, e.q)
  \/ e.op = "reset" /\ Reset

\* n: size() and length(); z: strlen(c_str()); vw: views that disagree
ProjSlot(x) == [a |-> x.a, c |-> x.c, n |-> Len(x.c), z |-> Len(CStr(x.c)),
                e |-> IF x.a = 1 /\ x.c = <<>> THEN 1 ELSE 0, vw |-> 0]
ProjOf(sl) == [v |-> [s \in Slot |-> ProjSlot(sl[s])], bad |-> 0, lk |-> 0]

Lit == AllStrings(Chars, 2)
Ops ==
     [op : {"new", "del", "clear"}, s : Slot]
  \cup [op : {"newcopy", "newtake", "takeassign", "copyassign", "append", "compare"}, s : Slot, t : Slot]
  \cup [op : {"concat"}, s : Slot, t : Slot, u : Slot]
  \cup [op : {"newc", "assignc", "appendc", "comparec"}, s : Slot, q : Lit]
  \cup [op : {"newn"}, s : Slot, q : Lit, k : 0..2]
  \cup [op : {"newr"}, s : Slot, q : Lit, i : 0..2, j : 0..2]
  \cup [op : {"erase"}, s : Slot, i : 0..(MaxLen - 1)]
  \cup [op : {"write"}, s : Slot, i : 0..(MaxLen - 1), x : Chars, how : 0..1]
Next == \E e \in Ops : Do(e) /\ ev' = e
TypeOK == \A s \in Slot : slots[s].a \in {0, 1} /\ C(s) \in Seq(Chars) /\ (slots[s].a = 0 => C(s) = <<>>)
Independent == [][\A s \in Slot : (ev'.op # "reset" /\ s # ev'.s /\ ~(ev'.op \in {"newtake", "takeassign"} /\ s = ev'.t)) => slots'[s] = slots[s]]_vars
View == slots
Bounded == \A s \in Slot : Len(slots'[s].c) <= MaxLen
Emit == Bounded /\ PrintT(ToJson([from |-> ProjOf(slots), ev |-> ev' @@ [res |-> res'], to |-> ProjOf(slots')]))
=============================================================================
