------------------------------- MODULE Variant -------------------------------
(* N variant objects over the same list of alternatives 1..K.  A slot is not constructed (a = 0), or a
   constructed variant that holds the value v of alternative i, or nothing at all (i = 0, only after an
   exception).  MarkAlts: alternatives whose moves mark the source with -1.  CountAlts: alternatives that
   count their live objects.  UnitAlts: alternatives with only one value (monostate). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, K, Values, MarkAlts, CountAlts, UnitAlts, Throws, Lean
VARIABLES sl, ev, res
vars == <<sl, ev, res>>
Slot == 1..N
Alt == 1..K
MOVED == -1
REFUSED == -97
THROWN == -99
NULL == -98
Dead == [a |-> 0, i |-> 0, v |-> 0]
Valueless == [a |-> 1, i |-> 0, v |-> 0]
Hold(i, x) == [a |-> 1, i |-> i, v |-> IF i \in UnitAlts THEN 0 ELSE x]
\* what a move leaves behind: the same alternative, its value moved from
From(c) == IF c.i \in MarkAlts THEN Hold(c.i, MOVED) ELSE c
Set(s, c) == sl' = [sl EXCEPT ![s] = c]
Ok(r) == res' = r
Init == sl = [s \in Slot |-> Dead] /\ ev = [op |-> "init"] /\ res = <<>>
\* ---- construction
New(s) == sl[s].a = 0 /\ Set(s, Hold(1, 0)) /\ Ok(<<>>)
\* by copy (0), by move (1), in place by type (2), in place by index (3)
NewVal(s, k, x, how, th) ==
  /\ sl[s].a = 0 /\ (th = 1 => how # 1)
  /\ IF th = 1 THEN sl' = sl /\ Ok(<<THROWN>>) ELSE Set(s, Hold(k, x)) /\ Ok(<<>>)
NewCopy(s, t, th) ==
  /\ sl[s].a = 0 /\ sl[t].a = 1 /\ (th = 1 => sl[t].i # 0)
  /\ IF th = 1 THEN sl' = sl /\ Ok(<<THROWN>>) ELSE Set(s, sl[t]) /\ Ok(<<>>)
NewMove(s, t) == sl[s].a = 0 /\ sl[t].a = 1 /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = From(sl[t])] /\ Ok(<<>>)
Del(s) == sl[s].a = 1 /\ Set(s, Dead) /\ Ok(<<>>)
\* ---- assignment.  A throwing change of alternative leaves the old value or no value.
Failed(s) == Ok(<<THROWN>>) /\ (sl' = sl \/ Set(s, Valueless))
SetVal(s, k, x, how, th) ==
  /\ sl[s].a = 1 /\ (th = 1 => how # 1)
  /\ IF th = 1 THEN IF sl[s].i = k THEN sl' = sl /\ Ok(<<THROWN>>) ELSE Failed(s)
               ELSE Set(s, Hold(k, x)) /\ Ok(<<>>)
SetCopy(s, t, th) ==
  /\ sl[s].a = 1 /\ sl[t].a = 1 /\ (th = 1 => sl[t].i # 0 /\ s # t)
  /\ IF th = 1 THEN IF sl[s].i = sl[t].i THEN sl' = sl /\ Ok(<<THROWN>>) ELSE Failed(s)
               ELSE Set(s, sl[t]) /\ Ok(<<>>)
SetMove(s, t) ==
  /\ sl[s].a = 1 /\ sl[t].a = 1
  /\ sl' = IF s = t THEN sl ELSE [sl EXCEPT ![s] = sl[t], ![t] = From(sl[t])]
  /\ Ok(<<>>)
\* by type (0) or by index (1)
Emplace(s, k, x, how, th) ==
  /\ sl[s].a = 1
  /\ IF th = 1 THEN Failed(s) ELSE Set(s, Hold(k, x)) /\ Ok(<<Hold(k, x).v>>)
Swap(s, t, how) == sl[s].a = 1 /\ sl[t].a = 1 /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = sl[s]] /\ Ok(<<>>)
\* assignment through get<K>
Write(s, k, x) == sl[s].a = 1 /\ sl[s].i = k /\ Set(s, Hold(k, x)) /\ Ok(<<>>)
\* ---- observation: get in all its forms agrees; a visitor is called with the held alternative
Get(s, k) == sl[s].a = 1 /\ sl' = sl /\ Ok(<<IF sl[s].i = k THEN sl[s].v ELSE REFUSED>>)
Visit1(s) == sl[s].a = 1 /\ sl[s].i # 0 /\ sl' = sl /\ Ok(<<sl[s].i, sl[s].v>>)
Visit2(s, t) == /\ sl[s].a = 1 /\ sl[s].i # 0 /\ sl[t].a = 1 /\ sl[t].i # 0
                /\ sl' = sl /\ Ok(<<sl[s].i, sl[s].v, sl[t].i, sl[t].v>>)
B(b) == IF b THEN 1 ELSE 0
\* a variant without value comes first, then by alternative, then by value
Less(c, d) == \/ d.i # 0 /\ c.i < d.i
              \/ d.i # 0 /\ c.i = d.i /\ c.v < d.v
Cmp(s, t) == /\ sl[s].a = 1 /\ sl[t].a = 1 /\ sl' = sl
             /\ LET c == sl[s] d == sl[t]
                IN Ok(<<B(c = d), B(c # d), B(Less(c, d)), B(Less(d, c)), B(~Less(d, c)), B(~Less(c, d))>>)
Reset == sl' = [s \in Slot |-> Dead] /\ Ok(<<>>)
Do(e) ==
  \/ e.op = "new" /\ New(e.s)
  \/ e.op = "newval" /\ NewVal(e.s, e.k, e.x, e.how, e.th)
  \/ e.op = "newcopy" /\ NewCopy(e.s, e.t, e.th)
  \/ e.op = "newmove" /\ NewMove(e.s, e.t)
  \/ e.op = "del" /\ Del(e.s)
  \/ e.op = "setval" /\ SetVal(e.s, e.k, e.x, e.how, e.th)
  \/ e.op = "setcopy" /\ SetCopy(e.s, e.t, e.th)
  \/ e.op = "setmove" /\ SetMove(e.s, e.t)
  \/ e.op = "emplace" /\ Emplace(e.s, e.k, e.x, e.how, e.th)
  \/ e.op = "swap" /\ Swap(e.s, e.t, e.how)
  \/ e.op = "write" /\ Write(e.s, e.k, e.x)
  \/ e.op = "get" /\ Get(e.s, e.k)
  \/ e.op = "visit1" /\ Visit1(e.s)
  \/ e.op = "visit2" /\ Visit2(e.s, e.t)
  \/ e.op = "cmp" /\ Cmp(e.s, e.t)
  \/ e.op = "reset" /\ Reset
\* observed: constructed, index()+1, value, valueless_by_exception, number of alternatives that answer
\* holds_alternative or get_if; live counted objects; misuse of objects or memory
ProjOf(x) == [v |-> [s \in Slot |-> <<x[s].a, x[s].i, x[s].v, IF x[s].a = 1 /\ x[s].i = 0 THEN 1 ELSE 0, B(x[s].i # 0)>>],
              live |-> Cardinality({s \in Slot : x[s].i \in CountAlts}), bad |-> 0]
TypeOK == \A s \in Slot : sl[s].a \in 0..1 /\ sl[s].i \in 0..K /\ (sl[s].a = 0 => sl[s] = Dead)
\* exactly one alternative unless an exception intervened
AlwaysOne == ~Throws => \A s \in Slot : sl[s].a = 1 => sl[s].i # 0
Independent == [][\A s \in Slot : sl'[s] # sl[s] =>
                    (ev'.op = "reset" \/ ev'.s = s
                     \/ (ev'.op \in {"swap", "newmove", "setmove"} /\ ev'.t = s))]_vars
ReadsDoNotWrite == [][ev'.op \in {"get", "visit1", "visit2", "cmp"} => sl' = sl]_vars
Ths == IF Throws THEN 0..1 ELSE {0}
Ops ==
     [op : {"new", "del", "visit1"}, s : Slot]
  \cup [op : {"newval"}, s : Slot, k : Alt, x : Values, how : 0..3, th : Ths]
  \cup [op : {"setval"}, s : Slot, k : Alt, x : Values, how : 0..1, th : Ths]
  \cup [op : {"newcopy", "setcopy"}, s : Slot, t : Slot, th : Ths]
  \cup [op : {"newmove", "setmove", "cmp", "visit2"}, s : Slot, t : Slot]
  \cup [op : {"emplace"}, s : Slot, k : Alt, x : Values, how : 0..1, th : Ths]
  \cup [op : {"swap"}, s : Slot, t : Slot, how : 0..1]
  \cup [op : {"write"}, s : Slot, k : Alt, x : Values]
  \cup [op : {"get"}, s : Slot, k : Alt]
\* Lean: the operations on one slot that are not needed to reach every state are explored only where the
\* other slots are not constructed or hold the first alternative (they do not depend on the other slots)
Explore(e) == \/ ~Lean
              \/ e.op \in {"newcopy", "setcopy", "newmove", "setmove", "cmp", "visit2", "swap", "del"}
              \/ e.op \in {"newval", "setval"} /\ e.how = 0
              \/ \A t \in Slot \ {e.s} : sl[t].i <= 1
Next == \E e \in Ops : Explore(e) /\ Do(e) /\ ev' = e
View == sl
Emit == PrintT(ToJson([from |-> ProjOf(sl), ev |-> ev' @@ [res |-> res'], to |-> ProjOf(sl')]))
=============================================================================
