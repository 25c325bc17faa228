----------------------------- MODULE UniquePtr -----------------------------
(* unique_ptr: variables 1..N, each constructed or not, owning an object (o > 0) or     *)
(* nothing (o = 0), with a deleter d. Objects exist from the moment they are made until *)
(* they are deleted; an object made or released but not owned is loose. res of every     *)
(* action ends with the deletions it performs, in order: <<object, deleter>>.            *)
(* Derived holds the variables of type unique_ptr<Derived>; only they convert.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Objs, Dels, Derived, Converting, Comparisons
VARIABLES slots, obj, res, ev
vars == <<slots, obj, res, ev>>
Slot == 1..N
Dead == [a |-> 0, o |-> 0, d |-> 0]
Alive(s) == slots[s].a = 1
O(s) == slots[s].o
D(s) == slots[s].d
\* object status: 0 not made, 1 loose, 2 owned, 3 deleted
Init == slots = [s \in Slot |-> Dead] /\ obj = [o \in Objs |-> 0] /\ res = <<>> /\ ev = [op |-> "Init"]
Set(s, o, d) == [slots EXCEPT ![s] = [a |-> 1, o |-> o, d |-> d]]
\* deleting what s owns
Deletion(s) == IF O(s) = 0 THEN <<>> ELSE <<<<O(s), D(s)>>>>
ObjAfter(del, own, loose) == [o \in Objs |-> IF o \in own THEN 2 ELSE IF o \in loose THEN 1
                               ELSE IF \E i \in DOMAIN del : del[i][1] = o THEN 3 ELSE obj[o]]
Fresh(o) == obj[o] = 0
Loose(o) == obj[o] = 1
Compatible(s, t) == s \in Derived <=> t \in Derived
MayMove(s, t) == Compatible(s, t) \/ (Converting /\ s \notin Derived /\ t \in Derived)
\* objects of class Derived may be held by both kinds of variables; plain ones only by base variables
IsDerivedObj(o) == Converting /\ o % 2 = 0
Holds(s, o) == s \in Derived => IsDerivedObj(o)

NewEmpty(s, how)  == ~Alive(s) /\ slots' = Set(s, 0, 0) /\ obj' = obj /\ res' = <<>>   \* how: default or nullptr
NewOwn(s, o, d)   == ~Alive(s) /\ (Fresh(o) \/ Loose(o)) /\ Holds(s, o) /\ slots' = Set(s, o, d) /\ obj' = ObjAfter(<<>>, {o}, {}) /\ res' = <<>>
MoveNew(s, t)     == /\ ~Alive(s) /\ Alive(t) /\ MayMove(s, t)
                     /\ slots' = [slots EXCEPT ![s] = [a |-> 1, o |-> O(t), d |-> D(t)], ![t].o = 0]
                     /\ obj' = obj /\ res' = <<>>
MoveAssign(s, t)  == /\ Alive(s) /\ Alive(t) /\ MayMove(s, t)
                     /\ IF s = t THEN slots' = slots /\ obj' = obj /\ res' = <<>>
                        ELSE /\ slots' = [slots EXCEPT ![s] = [a |-> 1, o |-> O(t), d |-> D(t)], ![t].o = 0]
                             /\ res' = Deletion(s) /\ obj' = ObjAfter(Deletion(s), {}, {})
AssignNull(s)     == Alive(s) /\ slots' = [slots EXCEPT ![s].o = 0] /\ res' = Deletion(s) /\ obj' = ObjAfter(Deletion(s), {}, {})
ResetNull(s, how) == AssignNull(s)
ResetTo(s, o)     == /\ Alive(s) /\ (Fresh(o) \/ Loose(o)) /\ Holds(s, o)
                     /\ slots' = [slots EXCEPT ![s].o = o] /\ res' = Deletion(s) /\ obj' = ObjAfter(Deletion(s), {o}, {})
Release(s)        == Alive(s) /\ slots' = [slots EXCEPT ![s].o = 0] /\ res' = <<<<O(s)>>>> /\ obj' = ObjAfter(<<>>, {}, {O(s)})
Swap(s, t, how)   == /\ Alive(s) /\ Alive(t) /\ Compatible(s, t) /\ obj' = obj /\ res' = <<>>
                     /\ slots' = [slots EXCEPT ![s] = slots[t], ![t] = slots[s]]
Destroy(s)        == Alive(s) /\ slots' = [slots EXCEPT ![s] = Dead] /\ res' = Deletion(s) /\ obj' = ObjAfter(Deletion(s), {}, {})
\* the program deletes a loose object itself
DeleteLoose(o)    == Loose(o) /\ slots' = slots /\ res' = <<>> /\ obj' = [obj EXCEPT ![o] = 3]
B(x) == IF x THEN 1 ELSE 0
\* objects lie at increasing addresses in the order of their numbers, null is lowest
Six(x, y) == <<B(x = y), B(x # y), B(x < y), B(x > y), B(x <= y), B(x >= y)>>
Compare(s, t)     == Comparisons /\ Alive(s) /\ Alive(t) /\ slots' = slots /\ obj' = obj /\ res' = Six(O(s), O(t))
CompareNull(s)    == Comparisons /\ Alive(s) /\ slots' = slots /\ obj' = obj /\ res' = Six(O(s), 0) \o Six(0, O(s))
Reset             == slots' = [s \in Slot |-> Dead] /\ obj' = [o \in Objs |-> 0] /\ res' = <<>>

Do(e) ==
  \/ e.op = "new" /\ NewEmpty(e.s, e.how)
  \/ e.op = "own" /\ NewOwn(e.s, e.x, e.d)
  \/ e.op = "movenew" /\ MoveNew(e.s, e.t)
  \/ e.op = "moveassign" /\ MoveAssign(e.s, e.t)
  \/ e.op = "null" /\ AssignNull(e.s)
  \/ e.op = "resetnull" /\ ResetNull(e.s, e.how)
  \/ e.op = "resetto" /\ ResetTo(e.s, e.x)
  \/ e.op = "release" /\ Release(e.s)
  \/ e.op = "swap" /\ Swap(e.s, e.t, e.how)
  \/ e.op = "del" /\ Destroy(e.s)
  \/ e.op = "delloose" /\ DeleteLoose(e.x)
  \/ e.op = "cmp" /\ Compare(e.s, e.t)
  \/ e.op = "cmpnull" /\ CompareNull(e.s)
  \/ e.op = "reset" /\ Reset

\* get() as an object number, operator bool, deleter id; live objects; misuse counters
ProjOf(sl) == [v |-> [s \in Slot |-> <<sl[s].a, sl[s].o, B(sl[s].o # 0), sl[s].d>>], bad |-> 0]
Proj2(sl, ob) == [v |-> ProjOf(sl).v, live |-> Cardinality({o \in Objs : ob[o] \in {1, 2}}), bad |-> 0]

OneOwner == \A s, t \in Slot : s # t /\ O(s) # 0 => O(s) # O(t)
OwnedIffHeld == \A o \in Objs : obj[o] = 2 <=> \E s \in Slot : O(s) = o
DeletedOnce == [][\A o \in Objs : (obj[o] = 3 /\ ev'.op # "reset") => obj'[o] = 3]_vars
\* an object leaves the owned state only by deletion or release
NoLeak == [][\A o \in Objs : (obj[o] = 2 /\ obj'[o] = 1) => ev'.op = "release"]_vars
Ops ==
     [op : {"new", "resetnull"}, s : Slot, how : 0..1]
  \cup [op : {"own"}, s : Slot, x : Objs, d : Dels]
  \cup [op : {"movenew", "moveassign"}, s : Slot, t : Slot]
  \cup [op : {"cmp"}, s : Slot, t : Slot]
  \cup [op : {"null", "release", "del", "cmpnull"}, s : Slot]
  \cup [op : {"resetto"}, s : Slot, x : Objs]
  \cup [op : {"swap"}, s : Slot, t : Slot, how : 0..1]
  \cup [op : {"delloose"}, x : Objs]
Next == \E e \in Ops : Do(e) /\ ev' = e
View == <<slots, obj>>
Emit == PrintT(ToJson([from |-> [p |-> Proj2(slots, obj), o |-> obj], ev |-> ev' @@ [res |-> res'], to |-> [p |-> Proj2(slots', obj'), o |-> obj']]))
=============================================================================
