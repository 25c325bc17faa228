------------------------------ MODULE Optional ------------------------------
(* optional<T>: slots 1..N, each not constructed (a = 0), empty (e = 0) or holding v.      *)
(* A move leaves the source engaged; its value then is Moved(v), given by the element type. *)
(* th = 1 asks the next copy or conversion of an element to throw; res is then <<Thrown>>.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Values, MoveMarks, Throws, Counted
VARIABLES sl, res, ev
vars == <<sl, res, ev>>
Slot == 1..N
Thrown == -99
Dead == [a |-> 0, e |-> 0, v |-> 0]
Empty == [a |-> 1, e |-> 0, v |-> 0]
Just(x) == [a |-> 1, e |-> 1, v |-> x]
Moved(x) == IF MoveMarks THEN -1 ELSE x
Alive(s) == sl[s].a = 1
Has(s) == sl[s].e = 1
Init == sl = [s \in Slot |-> Dead] /\ res = <<>> /\ ev = [op |-> "Init"]
B(x) == IF x THEN 1 ELSE 0
Set(s, o) == sl' = [sl EXCEPT ![s] = o]
Same == sl' = sl
MovedFrom(t) == IF Has(t) THEN Just(Moved(sl[t].v)) ELSE sl[t]
NoThrow(th) == th = 0 /\ res' = <<>>
Throw(th) == th = 1 /\ Throws /\ res' = <<Thrown>>

\* how of New: default, nullopt
New(s, how)          == ~Alive(s) /\ Set(s, Empty) /\ res' = <<>>
\* how: 0 const lvalue, 1 rvalue, 2 in place, 3 converting value, 4 make_optional. 1 and 4 only move.
NewValue(s, x, how, th) == ~Alive(s) /\ \/ NoThrow(th) /\ Set(s, Just(x))
                                        \/ Throw(th) /\ how \in {0, 2, 3} /\ Same
NewCopy(s, t, th)    == ~Alive(s) /\ Alive(t) /\ \/ NoThrow(th) /\ Set(s, sl[t])
                                                 \/ Throw(th) /\ Has(t) /\ Same
NewMove(s, t)        == ~Alive(s) /\ Alive(t) /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = MovedFrom(t)] /\ res' = <<>>
\* from optional<U>: empty (k = 0) or holding x; how: copy or move
NewConv(s, k, x, how, th) == ~Alive(s) /\ \/ NoThrow(th) /\ Set(s, IF k = 1 THEN Just(x) ELSE Empty)
                                          \/ Throw(th) /\ k = 1 /\ Same
SetNull(s)           == Alive(s) /\ Set(s, Empty) /\ res' = <<>>
Clear(s)             == Alive(s) /\ Set(s, Empty) /\ res' = <<>>
\* how: 0 const lvalue, 1 rvalue, 2 converting
SetValue(s, x, how, th) == Alive(s) /\ \/ NoThrow(th) /\ Set(s, Just(x))
                                       \/ Throw(th) /\ how # 1 /\ Same
SetCopy(s, t, th)    == Alive(s) /\ Alive(t) /\ \/ NoThrow(th) /\ Set(s, sl[t])
                                                \/ Throw(th) /\ Has(t) /\ Same
SetMove(s, t)        == Alive(s) /\ Alive(t) /\ s # t /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = MovedFrom(t)] /\ res' = <<>>
SetConv(s, k, x, how, th) == Alive(s) /\ \/ NoThrow(th) /\ Set(s, IF k = 1 THEN Just(x) ELSE Empty)
                                         \/ Throw(th) /\ k = 1 /\ Same
\* emplace destroys the old value first; it returns a reference to the new value
Emplace(s, x, y, th) == Alive(s) /\ \/ th = 0 /\ Set(s, Just(x + y)) /\ res' = <<x + y>>
                                    \/ Throw(th) /\ Set(s, Empty)
Swap(s, t, how)      == Alive(s) /\ Alive(t) /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = sl[s]] /\ res' = <<>>
Write(s, x, how)     == Alive(s) /\ Has(s) /\ Set(s, Just(x)) /\ res' = <<>>
Destroy(s)           == Alive(s) /\ Set(s, Dead) /\ res' = <<>>
\* observers. how of value: lvalue, const lvalue, rvalue, const rvalue
Value(s, how)        == Alive(s) /\ Same /\ res' = <<IF Has(s) THEN sl[s].v ELSE Thrown>>
Deref(s, how)        == Alive(s) /\ Has(s) /\ Same /\ res' = <<sl[s].v>>
ValueOr(s, x, how)   == Alive(s) /\ res' = <<IF Has(s) THEN sl[s].v ELSE x>> /\ IF how = 1 THEN Set(s, MovedFrom(s)) ELSE Same
\* empty is below every value
Less(p, q) == q.e = 1 /\ (p.e = 0 \/ p.v < q.v)
Six(p, q) == <<B(p = q), B(p # q), B(Less(p, q)), B(Less(q, p)), B(~Less(q, p)), B(~Less(p, q))>>
Compare(s, t)        == Alive(s) /\ Alive(t) /\ Same /\ res' = Six(sl[s], sl[t])
CompareNull(s)       == Alive(s) /\ Same /\ res' = Six(sl[s], Empty) \o Six(Empty, sl[s])
CompareValue(s, x)   == Alive(s) /\ Same /\ res' = Six(sl[s], Just(x)) \o Six(Just(x), sl[s])
Reset                == sl' = [s \in Slot |-> Dead] /\ res' = <<>>

Do(e) ==
  \/ e.op = "new" /\ New(e.s, e.how)
  \/ e.op = "newval" /\ NewValue(e.s, e.x, e.how, e.th)
  \/ e.op = "newcopy" /\ NewCopy(e.s, e.t, e.th)
  \/ e.op = "newmove" /\ NewMove(e.s, e.t)
  \/ e.op = "newconv" /\ NewConv(e.s, e.k, e.x, e.how, e.th)
  \/ e.op = "null" /\ SetNull(e.s)
  \/ e.op = "clear" /\ Clear(e.s)
  \/ e.op = "setval" /\ SetValue(e.s, e.x, e.how, e.th)
  \/ e.op = "setcopy" /\ SetCopy(e.s, e.t, e.th)
  \/ e.op = "setmove" /\ SetMove(e.s, e.t)
  \/ e.op = "setconv" /\ SetConv(e.s, e.k, e.x, e.how, e.th)
  \/ e.op = "emplace" /\ Emplace(e.s, e.x, e.y, e.th)
  \/ e.op = "swap" /\ Swap(e.s, e.t, e.how)
  \/ e.op = "write" /\ Write(e.s, e.x, e.how)
  \/ e.op = "del" /\ Destroy(e.s)
  \/ e.op = "value" /\ Value(e.s, e.how)
  \/ e.op = "deref" /\ Deref(e.s, e.how)
  \/ e.op = "valueor" /\ ValueOr(e.s, e.x, e.how)
  \/ e.op = "cmp" /\ Compare(e.s, e.t)
  \/ e.op = "cmpnull" /\ CompareNull(e.s)
  \/ e.op = "cmpval" /\ CompareValue(e.s, e.x)
  \/ e.op = "reset" /\ Reset
\* observed: constructed, has_value, operator bool, value; live element objects; misuse counters
ProjOf(x) == [v |-> [s \in Slot |-> <<x[s].a, x[s].e, x[s].e, x[s].v>>],
              live |-> IF Counted THEN Cardinality({s \in Slot : x[s].e = 1}) ELSE 0, bad |-> 0]
TypeOK == \A s \in Slot : sl[s].a \in 0..1 /\ sl[s].e \in 0..1 /\ (sl[s].a = 0 => sl[s].e = 0) /\ (sl[s].e = 0 => sl[s].v = 0)
\* an operation changes only the optionals it names
Independent == [][\A s \in Slot : sl'[s] # sl[s] =>
                     (ev'.op = "reset" \/ ev'.s = s
                      \/ (ev'.op \in {"swap", "newmove", "setmove"} /\ ev'.t = s))]_vars
ReadsDoNotWrite == [][ev'.op \in {"value", "deref", "cmp", "cmpnull", "cmpval"} => sl' = sl]_vars
Ops ==
     [op : {"new", "swap"}, s : Slot, t : Slot, how : 0..1]
  \cup [op : {"newval"}, s : Slot, x : Values, how : 0..4, th : 0..1]
  \cup [op : {"setval"}, s : Slot, x : Values, how : 0..2, th : 0..1]
  \cup [op : {"newcopy", "setcopy"}, s : Slot, t : Slot, th : 0..1]
  \cup [op : {"newmove", "setmove", "cmp"}, s : Slot, t : Slot]
  \cup [op : {"newconv", "setconv"}, s : Slot, k : 0..1, x : Values, how : 0..1, th : 0..1]
  \cup [op : {"null", "clear", "del", "cmpnull"}, s : Slot]
  \cup [op : {"emplace"}, s : Slot, x : Values, y : {0}, th : 0..1]
  \cup [op : {"write", "valueor"}, s : Slot, x : Values, how : 0..1]
  \cup [op : {"value", "deref"}, s : Slot, how : 0..3]
  \cup [op : {"cmpval"}, s : Slot, x : Values]
Next == \E e \in Ops : Do(e) /\ (e.op = "new" => e.t = e.s) /\ ev' = e
View == sl
Emit == PrintT(ToJson([from |-> ProjOf(sl), ev |-> ev' @@ [res |-> res'], to |-> ProjOf(sl')]))
=============================================================================
