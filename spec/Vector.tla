------------------------------- MODULE Vector -------------------------------
(* vector<T> and valarray<T>: N container variables ("slots"), each either not     *)
(* constructed (a = 0) or holding a finite sequence c of element values. One action *)
(* per public operation; res is what the call returns. All slots are independent:   *)
(* that, with EXCEPT touching only the named slots, is the deep-copy property.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,          \* number of slots
          Values,     \* element values
          MaxLen,     \* bound used by the exhaustive model only
          Valarray    \* TRUE: the operations of valarray, FALSE: those of vector
VARIABLES slots, res, ev
vars == <<slots, res, ev>>
Slot == 1..N
Dead == [a |-> 0, c |-> <<>>]
Alive(s) == slots[s].a = 1
C(s) == slots[s].c
Len_(s) == Len(C(s))
Default == 0
Zeros(k) == [i \in 1..k |-> Default]
Put(s, q) == slots' = [slots EXCEPT ![s] = [a |-> 1, c |-> q]]
NoRes == res' = <<>>

Init == slots = [s \in Slot |-> Dead] /\ res = <<>> /\ ev = [op |-> "Init"]

New(s)            == ~Alive(s) /\ Put(s, <<>>) /\ NoRes
NewCopy(s, t)     == ~Alive(s) /\ Alive(t) /\ Put(s, C(t)) /\ NoRes
NewSized(s, n)    == Valarray /\ ~Alive(s) /\ Put(s, Zeros(n)) /\ NoRes
Destroy(s)        == Alive(s) /\ slots' = [slots EXCEPT ![s] = Dead] /\ NoRes
\* t is used up: moved into s and destroyed
Move(s, t)        == slots' = [slots EXCEPT ![s] = [a |-> 1, c |-> C(t)], ![t] = Dead] /\ NoRes
NewTake(s, t)     == ~Alive(s) /\ Alive(t) /\ Move(s, t)
TakeAssign(s, t)  == Alive(s) /\ Alive(t) /\ s # t /\ Move(s, t)
CopyAssign(s, t)  == Alive(s) /\ Alive(t) /\ Put(s, C(t)) /\ NoRes
PushBack(s, x)    == ~Valarray /\ Alive(s) /\ Put(s, Append(C(s), x)) /\ NoRes
\* i is 0-based, as in the code
PushBackOwn(s, i) == ~Valarray /\ Alive(s) /\ i \in 0..(Len_(s) - 1) /\ Put(s, Append(C(s), C(s)[i + 1])) /\ NoRes
PopBack(s)        == ~Valarray /\ Alive(s) /\ Len_(s) > 0 /\ Put(s, SubSeq(C(s), 1, Len_(s) - 1)) /\ NoRes
Resize(s, n)      == Alive(s) /\ Put(s, IF n <= Len_(s) THEN SubSeq(C(s), 1, n) ELSE C(s) \o Zeros(n - Len_(s))) /\ NoRes
Erase(s, i)       == /\ Alive(s) /\ i \in 0..(Len_(s) - 1)
                     /\ Put(s, SubSeq(C(s), 1, i) \o SubSeq(C(s), i + 2, Len_(s)))
                     /\ res' = <<i>>                        \* the position after the erased element
Clear(s)          == Alive(s) /\ Put(s, <<>>) /\ NoRes
Swap(s, t)        == Alive(s) /\ Alive(t) /\ slots' = [slots EXCEPT ![s] = slots[t], ![t] = slots[s]] /\ NoRes
Write(s, i, x)    == Alive(s) /\ i \in 0..(Len_(s) - 1) /\ Put(s, [C(s) EXCEPT ![i + 1] = x]) /\ NoRes
\* how: the accessor used (0 [], 1 at, 2 iterator, 3 data())
WriteVia(s, i, x, how) == Write(s, i, x)
Assign(s, q)      == Alive(s) /\ Put(s, q) /\ NoRes         \* from a range outside the container
AssignFrom(s, t, i, j) == /\ Alive(s) /\ Alive(t) /\ s # t /\ 0 <= i /\ i <= j /\ j <= Len_(t)
                          /\ Put(s, SubSeq(C(t), i + 1, j)) /\ NoRes
At(s, i)          == Alive(s) /\ i \in 0..(Len_(s) - 1) /\ slots' = slots /\ res' = <<C(s)[i + 1]>>
\* sin(va): size of the result, number of elements that are not the scalar sin of their argument, changes of va
Sin(s)            == Valarray /\ Alive(s) /\ slots' = slots /\ res' = <<Len_(s), 0, 0>>
Reset             == slots' = [s \in Slot |-> Dead] /\ NoRes

Do(e) ==
  \/ e.op = "new" /\ New(e.s)
  \/ e.op = "newcopy" /\ NewCopy(e.s, e.t)
  \/ e.op = "newsized" /\ NewSized(e.s, e.n)
  \/ e.op = "newtake" /\ NewTake(e.s, e.t)
  \/ e.op = "takeassign" /\ TakeAssign(e.s, e.t)
  \/ e.op = "del" /\ Destroy(e.s)
  \/ e.op = "copyassign" /\ CopyAssign(e.s, e.t)
  \/ e.op = "push" /\ PushBack(e.s, e.x)
  \/ e.op = "pushown" /\ PushBackOwn(e.s, e.i)
  \/ e.op = "pop" /\ PopBack(e.s)
  \/ e.op = "resize" /\ Resize(e.s, e.n)
  \/ e.op = "erase" /\ Erase(e.s, e.i)
  \/ e.op = "clear" /\ Clear(e.s)
  \/ e.op = "swap" /\ Swap(e.s, e.t)
  \/ e.op = "write" /\ WriteVia(e.s, e.i, e.x, e.how)
  \/ e.op = "assign" /\ Assign(e.s, e.q)
  \/ e.op = "assignfrom" /\ AssignFrom(e.s, e.t, e.i, e.j)
  \/ e.op = "at" /\ At(e.s, e.i)
  \/ e.op = "sin" /\ Sin(e.s)
  \/ e.op = "reset" /\ Reset

\* What a program can see of a slot: liveness, contents through [], size(), empty(), the number of
\* other views (const [], at, iterators, data, capacity >= size) that disagree.
ProjSlot(x) == [a |-> x.a, c |-> x.c, n |-> Len(x.c), e |-> IF x.a = 1 /\ x.c = <<>> THEN 1 ELSE 0, vw |-> 0]
\* bad: misuse of element objects or blocks seen by the instrumented element and allocator;
\* lk: objects and blocks outstanding when no container exists.
ProjOf(sl) == [v |-> [s \in Slot |-> ProjSlot(sl[s])], bad |-> 0, lk |-> 0]

Ops ==
     [op : {"new", "del", "clear", "pop", "sin"}, s : Slot]
  \cup [op : {"newcopy", "newtake", "takeassign", "copyassign", "swap"}, s : Slot, t : Slot]
  \cup [op : {"newsized", "resize"}, s : Slot, n : 0..MaxLen]
  \cup [op : {"push"}, s : Slot, x : Values]
  \cup [op : {"pushown", "erase", "at"}, s : Slot, i : 0..(MaxLen - 1)]
  \cup [op : {"write"}, s : Slot, i : 0..(MaxLen - 1), x : Values, how : 0..3]
  \cup [op : {"assign"}, s : Slot, q : {<<>>} \cup [1..2 -> Values]]
  \cup [op : {"assignfrom"}, s : Slot, t : Slot, i : 0..1, j : 0..MaxLen]

Next == \E e \in Ops : Do(e) /\ ev' = e
Spec == Init /\ [][Next]_vars
Bound == \A s \in Slot : Len_(s) <= MaxLen
TypeOK == \A s \in Slot : slots[s].a \in {0, 1} /\ C(s) \in Seq(Values \cup {Default}) /\ (slots[s].a = 0 => C(s) = <<>>)
\* Only the slots an operation names change (independence of copies).
Named(e) == {e.s} \cup (IF "t" \in DOMAIN e THEN {e.t} ELSE {})
Independent == [][\A s \in Slot : (ev'.op # "reset" /\ s \notin Named(ev')) => slots'[s] = slots[s]]_vars
\* copying never changes the source, erase and at never change the order of the remaining elements
SourceKept == [][(ev'.op \in {"newcopy", "copyassign", "assignfrom"}) => slots'[ev'.t] = slots[ev'.t]]_vars
View == slots
Bounded == \A s \in Slot : Len(slots'[s].c) <= MaxLen
\* prints the labelled transition graph for replay against the code (exhaustive model only)
Emit == Bounded /\ PrintT(ToJson([from |-> ProjOf(slots), ev |-> ev' @@ [res |-> res'], to |-> ProjOf(slots')]))
=============================================================================
