---------------------------- MODULE StringStream ----------------------------
(* stringstream: slots 1..N, each not constructed or holding the text accumulated so far, a  *)
(* sequence of character codes.                                                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Chars, MaxLen
VARIABLES sl, res, ev
vars == <<sl, res, ev>>
Slot == 1..N
Dead == [a |-> 0, c |-> <<>>]
Mk(q) == [a |-> 1, c |-> q]
Alive(s) == sl[s].a = 1
C(s) == sl[s].c
Init == sl = [s \in Slot |-> Dead] /\ res = <<>> /\ ev = [op |-> "Init"]
Set(s, q) == sl' = [sl EXCEPT ![s] = Mk(q)]
Same == sl' = sl
New(s)           == ~Alive(s) /\ Set(s, <<>>) /\ res' = <<>>
Destroy(s)       == Alive(s) /\ sl' = [sl EXCEPT ![s] = Dead] /\ res' = <<>>
\* what a C string q denotes: the characters in front of its first NUL
CStr(q) == IF \E i \in 1..Len(q) : q[i] = 0 THEN SubSeq(q, 1, (CHOOSE i \in 1..Len(q) : q[i] = 0 /\ \A j \in 1..(i - 1) : q[j] # 0) - 1) ELSE q
\* how: string lvalue, temporary string, C string
Insert(s, q, how) == Alive(s) /\ Set(s, C(s) \o (IF how = 2 THEN CStr(q) ELSE q)) /\ res' = <<>>
\* s << q << r
Insert2(s, q, p) == Alive(s) /\ Set(s, C(s) \o q \o p) /\ res' = <<>>
\* s << t.str(), also for s = t
InsertStr(s, t)  == Alive(s) /\ Alive(t) /\ Set(s, C(s) \o C(t)) /\ res' = <<>>
Clear(s)         == Alive(s) /\ Set(s, <<>>) /\ res' = <<>>
MoveAssign(s, t) == Alive(s) /\ Alive(t) /\ s # t /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = Mk(<<>>)] /\ res' = <<>>
\* str() returns the same reference each time; a copy of it is the text
Str(s)           == Alive(s) /\ Same /\ res' = C(s)
\* through the reference: how: assign, append, overwrite the i-th character with the head of q
Through(s, i, q, how) == Alive(s) /\ res' = <<>>
                         /\ CASE how = 0 -> Set(s, q)
                              [] how = 1 -> Set(s, C(s) \o q)
                              [] how = 2 -> i \in 1..Len(C(s)) /\ Len(q) > 0 /\ Set(s, [C(s) EXCEPT ![i] = q[1]])
Reset            == sl' = [s \in Slot |-> Dead] /\ res' = <<>>
Do(e) ==
  \/ e.op = "new" /\ New(e.s)
  \/ e.op = "del" /\ Destroy(e.s)
  \/ e.op = "ins" /\ Insert(e.s, e.q, e.how)
  \/ e.op = "ins2" /\ Insert2(e.s, e.q, e.p)
  \/ e.op = "insstr" /\ InsertStr(e.s, e.t)
  \/ e.op = "clear" /\ Clear(e.s)
  \/ e.op = "move" /\ MoveAssign(e.s, e.t)
  \/ e.op = "str" /\ Str(e.s)
  \/ e.op = "thru" /\ Through(e.s, e.i, e.q, e.how)
  \/ e.op = "reset" /\ Reset
\* observed: constructed, characters, size, emptiness, terminator
ProjOf(x) == [v |-> [s \in Slot |-> <<x[s].a, x[s].c, Len(x[s].c), IF x[s].a = 1 /\ x[s].c = <<>> THEN 1 ELSE 0, 0>>], bad |-> 0]
TypeOK == \A s \in Slot : sl[s].a \in 0..1 /\ (sl[s].a = 0 => C(s) = <<>>)
Independent == [][\A s \in Slot : sl'[s] # sl[s] => (ev'.op = "reset" \/ ev'.s = s \/ (ev'.op = "move" /\ ev'.t = s))]_vars
\* insertions only ever extend the text
Accumulates == [][ev'.op \in {"ins", "ins2", "insstr"} => SubSeq(sl'[ev'.s].c, 1, Len(C(ev'.s))) = C(ev'.s)]_vars
Short == UNION {[1..n -> Chars] : n \in 0..2}
Ops == [op : {"new", "del", "clear", "str"}, s : Slot] \cup [op : {"ins"}, s : Slot, q : Short, how : 0..2]
  \cup [op : {"ins2"}, s : Slot, q : Short, p : Short] \cup [op : {"insstr", "move"}, s : Slot, t : Slot]
  \cup [op : {"thru"}, s : Slot, i : 1..MaxLen, q : Short, how : 0..2]
Next == \E e \in Ops : Do(e) /\ (e.op = "thru" /\ e.how # 2 => e.i = 1) /\ (\A s \in Slot : Len(sl'[s].c) <= MaxLen) /\ ev' = e
View == sl
Emit == PrintT(ToJson([from |-> ProjOf(sl), ev |-> ev' @@ [res |-> res'], to |-> ProjOf(sl')]))
=============================================================================
