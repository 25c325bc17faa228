------------------------------- MODULE Tuple -------------------------------
(* pair (K = 2) and tuple<T1..TK>: slots 1..N, each not constructed or holding the sequence  *)
(* of its K components.  Marks are the positions whose element type marks its source when    *)
(* moved from; Zeros the positions of empty classes, whose only value is 0; Counted the      *)
(* positions whose live objects are counted.                                                 *)
(* Weak are the positions whose < is coarser than their ==: it does not tell 3k, 3k+1, 3k+2    *)
(* apart.                                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, K, Values, Marks, Zeros, Counted, Weak, Pair
VARIABLES sl, res, ev
vars == <<sl, res, ev>>
Slot == 1..N
Pos == 1..K
Dead == [a |-> 0, c |-> <<>>]
Mk(q) == [a |-> 1, c |-> q]
Alive(s) == sl[s].a = 1
C(s) == sl[s].c
Moved(q) == [i \in 1..Len(q) |-> IF i \in Marks THEN -1 ELSE q[i]]
Init == sl = [s \in Slot |-> Dead] /\ res = <<>> /\ ev = [op |-> "Init"]
B(x) == IF x THEN 1 ELSE 0
Set(s, o) == sl' = [sl EXCEPT ![s] = o]
Same == sl' = sl
WellFormed(q) == Len(q) = K /\ \A i \in Zeros : q[i] = 0

New(s)            == ~Alive(s) /\ Set(s, Mk([i \in Pos |-> 0])) /\ res' = <<>>
\* how: 0 const lvalues, 1 rvalues, 2 make_pair/make_tuple, 3 from a tuple of other types, 4 moved from one
NewVals(s, q, how) == ~Alive(s) /\ WellFormed(q) /\ Set(s, Mk(q)) /\ res' = <<>>
NewCopy(s, t)     == ~Alive(s) /\ Alive(t) /\ Set(s, sl[t]) /\ res' = <<>>
NewMove(s, t)     == ~Alive(s) /\ Alive(t) /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = Mk(Moved(C(t)))] /\ res' = <<>>
SetCopy(s, t)     == Alive(s) /\ Alive(t) /\ Set(s, sl[t]) /\ res' = <<>>
SetMove(s, t)     == Alive(s) /\ Alive(t) /\ s # t /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = Mk(Moved(C(t)))] /\ res' = <<>>
\* assignment from a tuple of other types, how: copied or moved
SetVals(s, q, how) == Alive(s) /\ WellFormed(q) /\ Set(s, Mk(q)) /\ res' = <<>>
Swap(s, t, how)   == Alive(s) /\ Alive(t) /\ sl' = [sl EXCEPT ![s] = sl[t], ![t] = sl[s]] /\ res' = <<>>
\* through get<i>, get<T>, or a tuple of references
Write(s, i, x, how) == Alive(s) /\ i \in Pos \ Zeros /\ Set(s, Mk([C(s) EXCEPT ![i] = x])) /\ res' = <<>>
Destroy(s)        == Alive(s) /\ Set(s, Dead) /\ res' = <<>>
\* how: the value category of the tuple get is applied to; get<T> for how >= 4
Get(s, i, how)    == Alive(s) /\ i \in Pos /\ Same /\ res' = <<C(s)[i]>>
\* constructs an object from get<i>(move(s))
Take(s, i)        == Alive(s) /\ i \in Pos /\ res' = <<C(s)[i]>> /\ Set(s, Mk([C(s) EXCEPT ![i] = Moved(C(s))[i]]))
\* tie of K variables, the i-th ignored when i # 0, assigned from s (how: copied or moved from a copy)
Tie(s, i, how)    == Alive(s) /\ Same /\ res' = [j \in Pos |-> IF j = i THEN 0 ELSE C(s)[j]]
\* how: lvalues, rvalues
Cat(s, t, how)    == Alive(s) /\ Alive(t) /\ Same /\ res' = C(s) \o C(t) \o C(s)
Lt(i, x, y) == IF i \in Weak THEN (x \div 3) < (y \div 3) ELSE x < y
Lex(p, q) == \E n \in 1..Len(p) : Lt(n, p[n], q[n]) /\ \A m \in 1..(n - 1) : ~Lt(m, p[m], q[m]) /\ ~Lt(m, q[m], p[m])
Six(p, q) == IF Pair THEN <<B(p = q), B(Lex(p, q)), B(Lex(q, p))>>
                     ELSE <<B(p = q), B(p # q), B(Lex(p, q)), B(Lex(q, p)), B(~Lex(q, p)), B(~Lex(p, q))>>
\* how: both of one type, the right one of other component types
Compare(s, t, how) == Alive(s) /\ Alive(t) /\ Same /\ res' = Six(C(s), C(t))
\* forward_as_tuple and tie keep the identity of their arguments
Refs(s)           == Alive(s) /\ Same /\ res' = <<1, 1, 1>>
\* forward<T>(x), x an lvalue or (only when T is no lvalue reference) an rvalue, and move(x):
\* the result designates x itself; it is an lvalue exactly when T is an lvalue reference, and
\* const exactly when T or x is.  k: T = X, X&, X&&, const X, const X&
Forward(k, how)   == Same /\ (how = 1 => k \notin {1, 4}) /\ res' = <<1, B(k \in {1, 4}), B(k \in {3, 4})>>
\* k: x not const, const;  how: lvalue, rvalue
MoveRef(k, how)   == Same /\ res' = <<1, 0, k>>
\* move_if_noexcept: an rvalue unless moving may throw and the type can be copied (k = 1)
MoveNx(k)         == Same /\ res' = <<1, B(k = 1), B(k = 1)>>
Reset             == sl' = [s \in Slot |-> Dead] /\ res' = <<>>

Do(e) ==
  \/ e.op = "new" /\ New(e.s)
  \/ e.op = "newvals" /\ NewVals(e.s, e.q, e.how)
  \/ e.op = "newcopy" /\ NewCopy(e.s, e.t)
  \/ e.op = "newmove" /\ NewMove(e.s, e.t)
  \/ e.op = "setcopy" /\ SetCopy(e.s, e.t)
  \/ e.op = "setmove" /\ SetMove(e.s, e.t)
  \/ e.op = "setvals" /\ SetVals(e.s, e.q, e.how)
  \/ e.op = "swap" /\ Swap(e.s, e.t, e.how)
  \/ e.op = "write" /\ Write(e.s, e.i, e.x, e.how)
  \/ e.op = "del" /\ Destroy(e.s)
  \/ e.op = "get" /\ Get(e.s, e.i, e.how)
  \/ e.op = "take" /\ Take(e.s, e.i)
  \/ e.op = "tie" /\ Tie(e.s, e.i, e.how)
  \/ e.op = "cat" /\ Cat(e.s, e.t, e.how)
  \/ e.op = "cmp" /\ Compare(e.s, e.t, e.how)
  \/ e.op = "refs" /\ Refs(e.s)
  \/ e.op = "fwd" /\ Forward(e.k, e.how)
  \/ e.op = "mov" /\ MoveRef(e.k, e.how)
  \/ e.op = "movnx" /\ MoveNx(e.k)
  \/ e.op = "reset" /\ Reset
ProjOf(x) == [v |-> [s \in Slot |-> x[s].c],
              live |-> Cardinality(Counted) * Cardinality({s \in Slot : x[s].a = 1}), bad |-> 0]
TypeOK == \A s \in Slot : IF Alive(s) THEN WellFormed(C(s)) ELSE C(s) = <<>>
Independent == [][\A s \in Slot : sl'[s] # sl[s] =>
                     (ev'.op = "reset" \/ ev'.s = s
                      \/ (ev'.op \in {"swap", "newmove", "setmove"} /\ ev'.t = s))]_vars
ReadsDoNotWrite == [][ev'.op \in {"get", "tie", "cat", "cmp", "refs", "fwd", "mov", "movnx"} => sl' = sl]_vars
\* the relations are a strict total order on the contents (a strict weak one when components are weakly ordered)
Total == \A s, t \in Slot : (Alive(s) /\ Alive(t)) =>
            LET n == Cardinality({r \in 1..3 : <<C(s) = C(t), Lex(C(s), C(t)), Lex(C(t), C(s))>>[r]})
            IN n <= 1 /\ (Weak = {} => n = 1)
Transitive == \A s, t, u \in Slot : (Alive(s) /\ Alive(t) /\ Alive(u) /\ Lex(C(s), C(t)) /\ Lex(C(t), C(u))) => Lex(C(s), C(u))
All == {q \in [Pos -> Values \cup {0}] : \A i \in Pos : (i \in Zeros <=> q[i] = 0)}
Ops ==
     [op : {"new", "del", "refs"}, s : Slot]
  \cup [op : {"newvals"}, s : Slot, q : All, how : 0..(IF Pair THEN 2 ELSE 4)]
  \cup [op : {"newcopy", "newmove", "setcopy", "setmove"}, s : Slot, t : Slot]
  \cup [op : {"swap", "cmp"}, s : Slot, t : Slot, how : 0..(IF Pair THEN 0 ELSE 1)]
  \cup [op : {"write"}, s : Slot, i : Pos, x : Values, how : 0..(IF Pair THEN 0 ELSE 2)]
  \cup [op : {"take"}, s : Slot, i : Pos]
  \cup [op : {"get"}, s : Slot, i : Pos, how : 0..(IF Pair THEN 1 ELSE 7)]
  \cup [op : {"fwd"}, k : 0..4, how : 0..1]
  \cup [op : {"mov"}, k : 0..1, how : 0..1]
  \cup [op : {"movnx"}, k : 0..2]
  \cup IF Pair THEN {} ELSE [op : {"setvals"}, s : Slot, q : All, how : 0..1]
     \cup [op : {"cat"}, s : Slot, t : Slot, how : 0..1] \cup [op : {"tie"}, s : Slot, i : 0..K, how : 0..1]
Next == \E e \in Ops : Do(e) /\ ev' = e
View == sl
Emit == PrintT(ToJson([from |-> ProjOf(sl), ev |-> ev' @@ [res |-> res'], to |-> ProjOf(sl')]))
=============================================================================
