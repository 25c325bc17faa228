------------------------------- MODULE Expected -------------------------------
(* N objects of type expected<T, E>.  A slot is not constructed (a = 0), or is in the value state (k = 1) or
   the error state (k = 0) with content v.  IsVoid: T is void, the value state has no content.
   MoveMarks: moving a content marks its source with -1.  Counted: contents count their live objects. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Values, IsVoid, MoveMarks, Counted, Throws
VARIABLES sl, ev, res
vars == <<sl, ev, res>>
Slot == 1..N
THROWN == -99
REFUSED == -97
MOVED == -1
Dead == [a |-> 0, k |-> 0, v |-> 0]
Hold(k, x) == [a |-> 1, k |-> k, v |-> IF IsVoid /\ k = 1 THEN 0 ELSE x]
From(c) == IF MoveMarks THEN Hold(c.k, MOVED) ELSE c
B(b) == IF b THEN 1 ELSE 0
Set(s, c) == sl' = [sl EXCEPT ![s] = c]
Ok(r) == res' = r
Init == sl = [s \in Slot |-> Dead] /\ ev = [op |-> "init"] /\ res = <<>>
\* an operation that copies content either succeeds, or throws and changes nothing
Try(th, s, c, r) == IF th = 1 THEN sl' = sl /\ Ok(<<THROWN>>) ELSE Set(s, c) /\ Ok(r)
\* content whose copy can throw
Copyable(k) == ~(IsVoid /\ k = 1)
New(s) == sl[s].a = 0 /\ Set(s, Hold(1, 0)) /\ Ok(<<>>)
\* value (k = 1) or error (k = 0), from a const lvalue (0), an rvalue (1), in place (2)
NewVal(s, k, x, how, th) == sl[s].a = 0 /\ (th = 1 => how # 1 /\ Copyable(k)) /\ Try(th, s, Hold(k, x), <<>>)
NewCopy(s, t, th) == sl[s].a = 0 /\ sl[t].a = 1 /\ (th = 1 => Copyable(sl[t].k)) /\ Try(th, s, sl[t], <<>>)
NewMove(s, t) == sl[s].a = 0 /\ sl[t].a = 1 /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = From(sl[t])] /\ Ok(<<>>)
\* from an expected of other types, const lvalue (0) or rvalue (1)
NewConv(s, k, x, how) == ~IsVoid /\ sl[s].a = 0 /\ Set(s, Hold(k, x)) /\ Ok(<<>>)
Del(s) == sl[s].a = 1 /\ Set(s, Dead) /\ Ok(<<>>)
SetVal(s, k, x, how, th) == sl[s].a = 1 /\ (th = 1 => how # 1 /\ Copyable(k)) /\ Try(th, s, Hold(k, x), <<>>)
SetCopy(s, t, th) == sl[s].a = 1 /\ sl[t].a = 1 /\ (th = 1 => Copyable(sl[t].k)) /\ Try(th, s, sl[t], <<>>)
SetMove(s, t) == /\ sl[s].a = 1 /\ sl[t].a = 1 /\ Ok(<<>>)
                 /\ sl' = IF s = t THEN sl ELSE [sl EXCEPT ![s] = sl[t], ![t] = From(sl[t])]
Emplace(s, x) == sl[s].a = 1 /\ Set(s, Hold(1, x)) /\ Ok(<<IF IsVoid THEN 0 ELSE x>>)
Swap(s, t, how) == sl[s].a = 1 /\ sl[t].a = 1 /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = sl[s]] /\ Ok(<<>>)
\* assignment through value() / error()
Write(s, k, x) == sl[s].a = 1 /\ sl[s].k = k /\ Copyable(k) /\ Set(s, Hold(k, x)) /\ Ok(<<>>)
\* value() throws an exception that carries the error
Value(s, how) == sl[s].a = 1 /\ sl' = sl /\ Ok(IF sl[s].k = 1 THEN <<sl[s].v>> ELSE <<THROWN, sl[s].v>>)
Deref(s, how) == ~IsVoid /\ sl[s].a = 1 /\ sl' = sl /\ Ok(<<IF sl[s].k = 1 THEN sl[s].v ELSE REFUSED>>)
Error(s, how) == sl[s].a = 1 /\ sl' = sl /\ Ok(<<IF sl[s].k = 0 THEN sl[s].v ELSE REFUSED>>)
Unexpected(s) == sl[s].a = 1 /\ sl[s].k = 0 /\ sl' = sl /\ Ok(<<sl[s].v>>)
\* on an rvalue (how = 1) the value is moved out
ValueOr(s, x, how) ==
  /\ ~IsVoid /\ sl[s].a = 1
  /\ Ok(<<IF sl[s].k = 1 THEN sl[s].v ELSE x>>)
  /\ sl' = IF how = 1 /\ sl[s].k = 1 THEN [sl EXCEPT ![s] = From(sl[s])] ELSE sl
EqNe(b) == <<B(b), B(~b)>>
Cmp(s, t) == sl[s].a = 1 /\ sl[t].a = 1 /\ sl' = sl /\ Ok(EqNe(sl[s] = sl[t]))
\* with a value, with an unexpected value; both argument orders
CmpVal(s, x) == ~IsVoid /\ sl[s].a = 1 /\ sl' = sl /\ LET r == EqNe(sl[s] = Hold(1, x)) IN Ok(r \o r)
CmpErr(s, x) == sl[s].a = 1 /\ sl' = sl /\ LET r == EqNe(sl[s] = Hold(0, x)) IN Ok(r \o r)
Reset == sl' = [s \in Slot |-> Dead] /\ Ok(<<>>)
Do(e) ==
  \/ e.op = "new" /\ New(e.s)
  \/ e.op = "newval" /\ NewVal(e.s, e.k, e.x, e.how, e.th)
  \/ e.op = "newcopy" /\ NewCopy(e.s, e.t, e.th)
  \/ e.op = "newmove" /\ NewMove(e.s, e.t)
  \/ e.op = "newconv" /\ NewConv(e.s, e.k, e.x, e.how)
  \/ e.op = "del" /\ Del(e.s)
  \/ e.op = "setval" /\ SetVal(e.s, e.k, e.x, e.how, e.th)
  \/ e.op = "setcopy" /\ SetCopy(e.s, e.t, e.th)
  \/ e.op = "setmove" /\ SetMove(e.s, e.t)
  \/ e.op = "emplace" /\ Emplace(e.s, e.x)
  \/ e.op = "swap" /\ Swap(e.s, e.t, e.how)
  \/ e.op = "write" /\ Write(e.s, e.k, e.x)
  \/ e.op = "value" /\ Value(e.s, e.how)
  \/ e.op = "deref" /\ Deref(e.s, e.how)
  \/ e.op = "error" /\ Error(e.s, e.how)
  \/ e.op = "unexp" /\ Unexpected(e.s)
  \/ e.op = "valueor" /\ ValueOr(e.s, e.x, e.how)
  \/ e.op = "cmp" /\ Cmp(e.s, e.t)
  \/ e.op = "cmpval" /\ CmpVal(e.s, e.x)
  \/ e.op = "cmperr" /\ CmpErr(e.s, e.x)
  \/ e.op = "reset" /\ Reset
\* observed: constructed, has_value, operator bool, content; live objects; misuse
ProjOf(x) == [v |-> [s \in Slot |-> <<x[s].a, x[s].k, x[s].k, x[s].v>>],
              live |-> IF Counted THEN Cardinality({s \in Slot : x[s].a = 1 /\ Copyable(x[s].k)}) ELSE 0, bad |-> 0]
TypeOK == \A s \in Slot : sl[s].a \in 0..1 /\ sl[s].k \in 0..1 /\ (sl[s].a = 0 => sl[s] = Dead)
Independent == [][\A s \in Slot : sl'[s] # sl[s] =>
                    (ev'.op = "reset" \/ ev'.s = s
                     \/ (ev'.op \in {"swap", "newmove", "setmove"} /\ ev'.t = s))]_vars
ReadsDoNotWrite == [][ev'.op \in {"value", "deref", "error", "unexp", "cmp", "cmpval", "cmperr"} => sl' = sl]_vars
Ths == IF Throws THEN 0..1 ELSE {0}
Ops ==
     [op : {"new", "del", "unexp"}, s : Slot]
  \cup [op : {"newval"}, s : Slot, k : 0..1, x : Values, how : 0..2, th : Ths]
  \cup [op : {"setval"}, s : Slot, k : 0..1, x : Values, how : 0..1, th : Ths]
  \cup [op : {"newcopy", "setcopy"}, s : Slot, t : Slot, th : Ths]
  \cup [op : {"newmove", "setmove", "cmp"}, s : Slot, t : Slot]
  \cup [op : {"newconv"}, s : Slot, k : 0..1, x : Values, how : 0..1]
  \cup [op : {"emplace", "cmpval", "cmperr"}, s : Slot, x : Values]
  \cup [op : {"swap"}, s : Slot, t : Slot, how : 0..1]
  \cup [op : {"write"}, s : Slot, k : 0..1, x : Values]
  \cup [op : {"value", "deref", "error"}, s : Slot, how : 0..3]
  \cup [op : {"valueor"}, s : Slot, x : Values, how : 0..1]
Next == \E e \in Ops : Do(e) /\ ev' = e
View == sl
Emit == PrintT(ToJson([from |-> ProjOf(sl), ev |-> ev' @@ [res |-> res'], to |-> ProjOf(sl')]))
=============================================================================
