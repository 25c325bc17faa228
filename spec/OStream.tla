------------------------------ MODULE OStream ------------------------------
(* Output streams: every stream holds the text inserted since its last flush; flushing       *)
(* prints that text on the standard output, once, and leaves the stream empty.  Stream 1 is  *)
(* cout, the others are objects of the program.                                              *)
EXTENDS Convert, Json
CONSTANTS N, Chars, MaxLen
VARIABLES st, ev, res
vars == <<st, ev, res>>
Slot == 1..N
Dead == [a |-> 0, c |-> <<>>]
Mk(q) == [a |-> 1, c |-> q]
Alive(s) == st[s].a = 1
Fresh == [s \in Slot |-> IF s = 1 THEN Mk(<<>>) ELSE Dead]
OInit == st = Fresh /\ ev = [op |-> "Init"] /\ res = <<>> /\ Init
Put(s, t) == Alive(s) /\ st' = [st EXCEPT ![s].c = @ \o t]
New(s) == ~Alive(s) /\ st' = [st EXCEPT ![s] = Mk(<<>>)]
\* a stream is only given up when nothing is pending: what its destructor does with a rest is open
Del(s) == s # 1 /\ Alive(s) /\ st[s].c = <<>> /\ st' = [st EXCEPT ![s] = Dead]
Flush(s) == Alive(s) /\ st' = [st EXCEPT ![s].c = <<>>] /\ res' = st[s].c
\* the text of a value is the one to_string gives it: decimal for integers, shortest for floating point
NumText(k, w, t) == CASE k = 0 -> t = IF w = <<0>> THEN <<48>> ELSE <<49>>                  \* bool
                      [] k \in {1, 3, 5} -> IntTextOK(TRUE, w, t)                           \* short, int, long long
                      [] k \in {2, 4, 6} -> IntTextOK(FALSE, w, t)                          \* their unsigned versions
                      [] k = 7 -> FloatTextOK(Single, w, t)
                      [] k = 8 -> FloatTextOK(Double, w, t)
\* how: C string, string lvalue, temporary string, inserted by another translation unit
ODo(e) ==
  \/ e.op = "new" /\ New(e.s) /\ res' = <<>>
  \/ e.op = "del" /\ Del(e.s) /\ res' = <<>>
  \/ e.op = "txt" /\ Put(e.s, e.q) /\ e.how \in 0..3 /\ res' = <<>>
  \/ e.op = "txt2" /\ Put(e.s, e.q \o e.p) /\ res' = <<>>
  \/ e.op = "num" /\ Put(e.s, res') /\ NumText(e.k, e.w, res')
  \/ e.op = "mix" /\ Put(e.s, e.q \o res' \o e.p) /\ NumText(e.k, e.w, res')     \* s << q << value << p
  \/ e.op = "flush" /\ Flush(e.s)
  \/ e.op = "reset" /\ st' = Fresh /\ res' = <<>>
\* observed: anything printed other than by a flush, and insertions that do not return their stream
ProjOf == [said |-> <<>>, bad |-> 0]
TypeOK == \A s \in Slot : st[s].a = 0 => st[s].c = <<>>
\* nothing printed is lost, repeated or reordered: only a flush moves text out, and it moves all of it
Conserved == [][\A s \in Slot : ev'.op # "reset" =>
   IF ev'.op = "flush" /\ ev'.s = s THEN res' = st[s].c /\ st'[s].c = <<>>
   ELSE SubSeq(st'[s].c, 1, Len(st[s].c)) = st[s].c]_vars
Independent == [][ev'.op # "reset" => \A s \in Slot : s # ev'.s => st'[s] = st[s]]_vars
Short == UNION {[1..n -> Chars] : n \in 0..2}
Ops == [op : {"new", "del", "flush"}, s : Slot] \cup [op : {"txt"}, s : Slot, q : Short, how : 0..3] \cup [op : {"txt2"}, s : Slot, q : Short, p : Short]
ONext == \E e \in Ops : ODo(e) /\ (\A s \in Slot : Len(st'[s].c) <= MaxLen) /\ ev' = e /\ UNCHANGED cvars
View == st
Emit == PrintT(ToJson([from |-> st, ev |-> ev' @@ [res |-> res'], to |-> st']))
=============================================================================
