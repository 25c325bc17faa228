--------------------------------- MODULE Any ---------------------------------
(* N objects of type any and K held types.  A slot is not constructed (a = 0), or holds the value v of type i,
   or is empty (i = 0).  A move transfers the value and leaves the source empty. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, K, Values, CountTypes, Throws
VARIABLES sl, ev, res
vars == <<sl, ev, res>>
Slot == 1..N
Type == 1..K
THROWN == -99
BADCAST == -97
Dead == [a |-> 0, i |-> 0, v |-> 0]
Empty == [a |-> 1, i |-> 0, v |-> 0]
Hold(i, x) == [a |-> 1, i |-> i, v |-> x]
Set(s, c) == sl' = [sl EXCEPT ![s] = c]
Ok(r) == res' = r
Init == sl = [s \in Slot |-> Dead] /\ ev = [op |-> "init"] /\ res = <<>>
New(s) == sl[s].a = 0 /\ Set(s, Empty) /\ Ok(<<>>)
\* from a const lvalue (0), an rvalue (1), in place (2), make_any (3).  th = 1: copying the value throws
NewVal(s, k, x, how, th) ==
  /\ sl[s].a = 0 /\ (th = 1 => how # 1)
  /\ IF th = 1 THEN sl' = sl /\ Ok(<<THROWN>>) ELSE Set(s, Hold(k, x)) /\ Ok(<<>>)
NewCopy(s, t, th) ==
  /\ sl[s].a = 0 /\ sl[t].a = 1 /\ (th = 1 => sl[t].i # 0)
  /\ IF th = 1 THEN sl' = sl /\ Ok(<<THROWN>>) ELSE Set(s, sl[t]) /\ Ok(<<>>)
NewMove(s, t) == sl[s].a = 0 /\ sl[t].a = 1 /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = Empty] /\ Ok(<<>>)
Del(s) == sl[s].a = 1 /\ Set(s, Dead) /\ Ok(<<>>)
\* assignments that throw change nothing
SetVal(s, k, x, how, th) ==
  /\ sl[s].a = 1 /\ (th = 1 => how # 1)
  /\ IF th = 1 THEN sl' = sl /\ Ok(<<THROWN>>) ELSE Set(s, Hold(k, x)) /\ Ok(<<>>)
SetCopy(s, t, th) ==
  /\ sl[s].a = 1 /\ sl[t].a = 1 /\ (th = 1 => sl[t].i # 0 /\ s # t)
  /\ IF th = 1 THEN sl' = sl /\ Ok(<<THROWN>>) ELSE Set(s, sl[t]) /\ Ok(<<>>)
SetMove(s, t) ==
  /\ sl[s].a = 1 /\ sl[t].a = 1
  /\ sl' = IF s = t THEN sl ELSE [sl EXCEPT ![s] = sl[t], ![t] = Empty]
  /\ Ok(<<>>)
\* emplace that throws leaves the old value or nothing
Emplace(s, k, x, th) ==
  /\ sl[s].a = 1
  /\ IF th = 1 THEN Ok(<<THROWN>>) /\ (sl' = sl \/ Set(s, Empty)) ELSE Set(s, Hold(k, x)) /\ Ok(<<>>)
Clear(s) == sl[s].a = 1 /\ Set(s, Empty) /\ Ok(<<>>)
Swap(s, t, how) == sl[s].a = 1 /\ sl[t].a = 1 /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = sl[s]] /\ Ok(<<>>)
\* through the pointer form (0) or the reference form (1) of any_cast
Write(s, k, x, how) == sl[s].a = 1 /\ sl[s].i = k /\ Set(s, Hold(k, x)) /\ Ok(<<>>)
\* any_cast by value and by reference: the value, or an exception when another type (or nothing) is held
Cast(s, k) == sl[s].a = 1 /\ sl' = sl /\ Ok(<<IF sl[s].i = k THEN sl[s].v ELSE BADCAST>>)
Reset == sl' = [s \in Slot |-> Dead] /\ Ok(<<>>)
Do(e) ==
  \/ e.op = "new" /\ New(e.s)
  \/ e.op = "newval" /\ NewVal(e.s, e.k, e.x, e.how, e.th)
  \/ e.op = "newcopy" /\ NewCopy(e.s, e.t, e.th)
  \/ e.op = "newmove" /\ NewMove(e.s, e.t)
  \/ e.op = "del" /\ Del(e.s)
  \/ e.op = "setval" /\ SetVal(e.s, e.k, e.x, e.how, e.th)
  \/ e.op = "setcopy" /\ SetCopy(e.s, e.t, e.th)
  \/ e.op = "setmove" /\ SetMove(e.s, e.t)
  \/ e.op = "emplace" /\ Emplace(e.s, e.k, e.x, e.th)
  \/ e.op = "clear" /\ Clear(e.s)
  \/ e.op = "swap" /\ Swap(e.s, e.t, e.how)
  \/ e.op = "write" /\ Write(e.s, e.k, e.x, e.how)
  \/ e.op = "cast" /\ Cast(e.s, e.k)
  \/ e.op = "reset" /\ Reset
B(b) == IF b THEN 1 ELSE 0
\* observed: constructed, has_value, which type() it reports (0: void), number of types whose pointer
\* any_cast is not null, the value through that pointer; live counted objects; misuse
ProjOf(x) == [v |-> [s \in Slot |-> <<x[s].a, B(x[s].i # 0), x[s].i, B(x[s].i # 0), x[s].v>>],
              live |-> Cardinality({s \in Slot : x[s].i \in CountTypes}), bad |-> 0]
TypeOK == \A s \in Slot : sl[s].a \in 0..1 /\ sl[s].i \in 0..K /\ (sl[s].a = 0 => sl[s] = Dead)
                          /\ (sl[s].i = 0 => sl[s].v = 0)
Independent == [][\A s \in Slot : sl'[s] # sl[s] =>
                    (ev'.op = "reset" \/ ev'.s = s
                     \/ (ev'.op \in {"swap", "newmove", "setmove"} /\ ev'.t = s))]_vars
ReadsDoNotWrite == [][ev'.op = "cast" => sl' = sl]_vars
Ths == IF Throws THEN 0..1 ELSE {0}
Ops ==
     [op : {"new", "del", "clear"}, s : Slot]
  \cup [op : {"newval"}, s : Slot, k : Type, x : Values, how : 0..3, th : Ths]
  \cup [op : {"setval"}, s : Slot, k : Type, x : Values, how : 0..1, th : Ths]
  \cup [op : {"newcopy", "setcopy"}, s : Slot, t : Slot, th : Ths]
  \cup [op : {"newmove", "setmove"}, s : Slot, t : Slot]
  \cup [op : {"emplace"}, s : Slot, k : Type, x : Values, th : Ths]
  \cup [op : {"swap"}, s : Slot, t : Slot, how : 0..1]
  \cup [op : {"write"}, s : Slot, k : Type, x : Values, how : 0..1]
  \cup [op : {"cast"}, s : Slot, k : Type]
Next == \E e \in Ops : Do(e) /\ ev' = e
View == sl
Emit == PrintT(ToJson([from |-> ProjOf(sl), ev |-> ev' @@ [res |-> res'], to |-> ProjOf(sl')]))
=============================================================================
