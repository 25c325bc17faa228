-------------------------------- MODULE Map --------------------------------
(* nanostl::map: N map variables, each a finite set of <<key, value>> with unique keys, *)
(* kept as the sequence sorted by key (which is what iteration must show), and R saved  *)
(* positions (pointers, references, iterators) into them.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS N, R, Keys, Values, MaxSize
VARIABLES slots, refs, res, ev
vars == <<slots, refs, res, ev>>
Slot == 1..N
Ref == 1..R
Dead == [a |-> 0, c |-> <<>>]
NoRef == [s |-> 0, k |-> 0]         \* nothing saved
EndRef(s) == [s |-> s, k |-> -1]    \* saved end() of map s; real keys are >= 0
Alive(s) == slots[s].a = 1
C(s) == slots[s].c
Default == 0

\* ---- the dictionary ---------------------------------------------------------
HasKey(c, k) == \E i \in DOMAIN c : c[i][1] = k
PosOf(c, k) == CHOOSE i \in DOMAIN c : c[i][1] = k
ValOf(c, k) == c[PosOf(c, k)][2]
CountBelow(c, k) == Cardinality({i \in DOMAIN c : c[i][1] < k})
Add(c, k, x) == IF HasKey(c, k) THEN c ELSE LET n == CountBelow(c, k) IN SubSeq(c, 1, n) \o <<<<k, x>>>> \o SubSeq(c, n + 1, Len(c))
SetVal(c, k, x) == [c EXCEPT ![PosOf(c, k)] = <<k, x>>]
\* index of the first element with key > k, or Len+1
Upper(c, k) == CHOOSE i \in 1..(Len(c) + 1) : /\ (i <= Len(c) => c[i][1] > k)
                                               /\ (i > 1 => c[i - 1][1] <= k)
AtOrEnd(c, i) == IF i <= Len(c) THEN <<1, c[i][1], c[i][2]>> ELSE <<0, 0, 0>>
KeyOrEnd(c, i) == IF i <= Len(c) THEN c[i][1] ELSE -1
Sorted(c) == \A i \in 1..(Len(c) - 1) : c[i][1] < c[i + 1][1]

\* ---- actions -----------------------------------------------------------------
Put(s, q) == slots' = [slots EXCEPT ![s] = [a |-> 1, c |-> q]]
Same == slots' = slots
KeepRefs == refs' = refs
\* positions into s die with the elements of s
DropRefs(s) == refs' = [r \in Ref |-> IF refs[r].s = s THEN NoRef ELSE refs[r]]
NoRes == res' = <<>>
Init == slots = [s \in Slot |-> Dead] /\ refs = [r \in Ref |-> NoRef] /\ res = <<>> /\ ev = [op |-> "Init"]

New(s)           == ~Alive(s) /\ Put(s, <<>>) /\ KeepRefs /\ NoRes
NewCopy(s, t)    == ~Alive(s) /\ Alive(t) /\ Put(s, C(t)) /\ KeepRefs /\ NoRes
Destroy(s)       == Alive(s) /\ slots' = [slots EXCEPT ![s] = Dead] /\ DropRefs(s) /\ NoRes
CopyAssign(s, t) == /\ Alive(s) /\ Alive(t) /\ Put(s, C(t)) /\ NoRes
                    /\ IF s = t THEN KeepRefs ELSE DropRefs(s)
\* t is used up: moved into s and destroyed; no saved position into either survives
Move(s, t)       == /\ slots' = [slots EXCEPT ![s] = [a |-> 1, c |-> C(t)], ![t] = Dead] /\ NoRes
                    /\ refs' = [r \in Ref |-> IF refs[r].s \in {s, t} THEN NoRef ELSE refs[r]]
NewTake(s, t)    == ~Alive(s) /\ Alive(t) /\ Move(s, t)
TakeAssign(s, t) == Alive(s) /\ Alive(t) /\ s # t /\ Move(s, t)
\* result: inserted?, key and value at the returned position
Insert(s, k, x)  == /\ Alive(s) /\ Put(s, Add(C(s), k, x)) /\ KeepRefs
                    /\ res' = <<IF HasKey(C(s), k) THEN 0 ELSE 1, k, IF HasKey(C(s), k) THEN ValOf(C(s), k) ELSE x>>
Index(s, k)      == Alive(s) /\ Put(s, Add(C(s), k, Default)) /\ KeepRefs /\ res' = <<ValOf(Add(C(s), k, Default), k)>>
IndexWrite(s, k, x) == Alive(s) /\ Put(s, SetVal(Add(C(s), k, Default), k, x)) /\ KeepRefs /\ NoRes
Find(s, k)       == Alive(s) /\ Same /\ KeepRefs /\ res' = IF HasKey(C(s), k) THEN <<1, k, ValOf(C(s), k)>> ELSE <<0, 0, 0>>
UpperBound(s, k) == Alive(s) /\ Same /\ KeepRefs /\ res' = AtOrEnd(C(s), Upper(C(s), k))
\* save a position: of key k (how: 0 insert's iterator, 1 find's, 2 address of operator[]), begin, end
SaveAt(r, s, k, how) == /\ Alive(s) /\ HasKey(C(s), k) /\ Same /\ NoRes
                        /\ refs' = [refs EXCEPT ![r] = [s |-> s, k |-> k]]
SaveBegin(r, s)  == Alive(s) /\ Same /\ NoRes /\ refs' = [refs EXCEPT ![r] = [s |-> s, k |-> KeyOrEnd(C(s), 1)]]
SaveEnd(r, s)    == Alive(s) /\ Same /\ NoRes /\ refs' = [refs EXCEPT ![r] = EndRef(s)]
IsElem(r)        == refs[r].s # 0 /\ refs[r].k # -1
Advance(r)       == /\ IsElem(r) /\ Same /\ NoRes
                    /\ LET c == C(refs[r].s) IN refs' = [refs EXCEPT ![r].k = KeyOrEnd(c, Upper(c, refs[r].k))]
WriteRef(r, x)   == /\ IsElem(r) /\ KeepRefs /\ NoRes
                    /\ LET s == refs[r].s IN Put(s, SetVal(C(s), refs[r].k, x))
\* == and != of two positions of the same map
Equal(r, t)      == /\ refs[r].s # 0 /\ refs[r].s = refs[t].s /\ Same /\ KeepRefs
                    /\ res' = IF refs[r].k = refs[t].k THEN <<1, 0>> ELSE <<0, 1>>
Forget(r)        == refs[r] # NoRef /\ refs' = [refs EXCEPT ![r] = NoRef] /\ Same /\ NoRes
Reset            == slots' = [s \in Slot |-> Dead] /\ refs' = [r \in Ref |-> NoRef] /\ NoRes

Do(e) ==
  \/ e.op = "new" /\ New(e.s)
  \/ e.op = "newcopy" /\ NewCopy(e.s, e.t)
  \/ e.op = "newtake" /\ NewTake(e.s, e.t)
  \/ e.op = "takeassign" /\ TakeAssign(e.s, e.t)
  \/ e.op = "del" /\ Destroy(e.s)
  \/ e.op = "copyassign" /\ CopyAssign(e.s, e.t)
  \/ e.op = "insert" /\ Insert(e.s, e.k, e.x)
  \/ e.op = "index" /\ Index(e.s, e.k)
  \/ e.op = "setidx" /\ IndexWrite(e.s, e.k, e.x)
  \/ e.op = "find" /\ Find(e.s, e.k)
  \/ e.op = "upper" /\ UpperBound(e.s, e.k)
  \/ e.op = "save" /\ SaveAt(e.r, e.s, e.k, e.how)
  \/ e.op = "savebegin" /\ SaveBegin(e.r, e.s)
  \/ e.op = "saveend" /\ SaveEnd(e.r, e.s)
  \/ e.op = "advance" /\ Advance(e.r)
  \/ e.op = "writeref" /\ WriteRef(e.r, e.x)
  \/ e.op = "equal" /\ Equal(e.r, e.t)
  \/ e.op = "forget" /\ Forget(e.r)
  \/ e.op = "reset" /\ Reset

\* ---- projection ------------------------------------------------------------------
ProjSlot(x) == [a |-> x.a, c |-> x.c, e |-> IF x.a = 1 /\ x.c = <<>> THEN 1 ELSE 0, vw |-> 0]
\* what dereferencing a saved position shows
ProjRef(sl, f) == IF f.s = 0 THEN <<>> ELSE IF f.k = -1 THEN <<f.s>> ELSE <<f.s, f.k, ValOf(sl[f.s].c, f.k)>>
ProjBoth(sl, rf) == [v |-> [s \in Slot |-> ProjSlot(sl[s])], r |-> [r \in Ref |-> ProjRef(sl, rf[r])], bad |-> 0, lk |-> 0]

\* ---- exhaustive model --------------------------------------------------------------
Ops ==
     [op : {"new", "del"}, s : Slot]
  \cup [op : {"newcopy", "newtake", "takeassign", "copyassign"}, s : Slot, t : Slot]
  \cup [op : {"insert", "setidx"}, s : Slot, k : Keys, x : Values]
  \cup [op : {"index", "find", "upper"}, s : Slot, k : Keys]
  \cup [op : {"save"}, r : Ref, s : Slot, k : Keys, how : 0..2]
  \cup [op : {"savebegin", "saveend"}, r : Ref, s : Slot]
  \cup [op : {"advance", "forget"}, r : Ref]
  \cup [op : {"writeref"}, r : Ref, x : Values]
  \cup [op : {"equal"}, r : Ref, t : Ref]
Next == \E e \in Ops : Do(e) /\ ev' = e
TypeOK == \A s \in Slot : slots[s].a \in {0, 1} /\ (slots[s].a = 0 => C(s) = <<>>)
AlwaysSorted == \A s \in Slot : Sorted(C(s))
RefsLive == \A r \in Ref : refs[r].s # 0 => Alive(refs[r].s) /\ (refs[r].k # -1 => HasKey(C(refs[r].s), refs[r].k))
\* an element, once inserted, stays until its map is destroyed or assigned over
NothingVanishes == [][\A s \in Slot : \A i \in DOMAIN C(s) :
    (ev'.op \in {"del", "copyassign", "newtake", "takeassign", "reset"} \/ HasKey(slots'[s].c, C(s)[i][1]))]_vars
\* insertion never disturbs a saved position or the value it shows
InsertKeepsRefs == [][(ev'.op = "insert") => \A r \in Ref : refs'[r] = refs[r] /\ ProjRef(slots', refs'[r]) = ProjRef(slots, refs[r])]_vars
Independent == [][\A s \in Slot : (ev'.op \in {"insert", "setidx", "index", "newcopy", "copyassign", "del"} /\ s # ev'.s) => slots'[s] = slots[s]]_vars
View == <<slots, refs>>
Bounded == \A s \in Slot : Len(slots'[s].c) <= MaxSize
Emit == Bounded /\ PrintT(ToJson([from |-> ProjBoth(slots, refs), ev |-> ev' @@ [res |-> res'], to |-> ProjBoth(slots', refs')]))
=============================================================================
