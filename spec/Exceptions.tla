----------------------------- MODULE Exceptions -----------------------------
(* Exception objects: slots 1..N, each not constructed or an exception of some kind with its text    *)
(* (and, for bad_expected_access, an error value), and what handlers see when one is thrown.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Chars, MaxLen, Errors
VARIABLES sl, res, ev
vars == <<sl, res, ev>>
Slot == 1..N
\* exception, logic_error, bad_optional_access, a program's own logic_error, bad_expected_access<E>,
\* a program's own exception
Base == 1  Logic == 2  Opt == 3  Sub == 4  Exp == 5  User == 6
\* handlers only: bad_expected_access<void>, of which every bad_expected_access is one; std::system_error,
\* which is not one of the library's exceptions
AnyExp == 7  Sys == 8
Moved == 0 - 1
Kinds == 1..6
Parent(k) == IF k \in {Opt, Sub} THEN Logic ELSE Base
IsA(k, b) == k = b \/ b = Base \/ (b = Logic /\ k \in {Opt, Sub})
\* the fixed texts
TBase == <<110, 97, 110, 111, 115, 116, 108, 58, 58, 101, 120, 99, 101, 112, 116, 105, 111, 110>>
TOpt == <<98, 97, 100, 32, 111, 112, 116, 105, 111, 110, 97, 108, 32, 97, 99, 99, 101, 115, 115>>
TExp == <<98, 97, 100, 95, 101, 120, 112, 101, 99, 116, 101, 100, 95, 97, 99, 99, 101, 115, 115>>
\* kind, own text (logic_error and the program's classes), error (Exp; User carries one too)
Dead == [k |-> 0, q |-> <<>>, x |-> 0]
Mk(k, q, x) == [k |-> k, q |-> IF k \in {Logic, Sub, User} THEN q ELSE <<>>, x |-> IF k \in {Exp, User} THEN x ELSE 0]
What(o) == CASE o.k = Base -> TBase [] o.k = Opt -> TOpt [] o.k = Exp -> TExp [] OTHER -> o.q
Alive(s) == sl[s].k # 0
Init == sl = [s \in Slot |-> Dead] /\ res = <<>> /\ ev = [op |-> "Init"]
Same == sl' = sl
Put(s, o) == sl' = [sl EXCEPT ![s] = o]
\* how: from a C string, from a string; either is overwritten right afterwards
New(s, k, q, x, how) == ~Alive(s) /\ Put(s, Mk(k, q, x)) /\ res' = <<>>
Copy(s, t)  == ~Alive(s) /\ Alive(t) /\ Put(s, sl[t]) /\ res' = <<>>
Assign(s, t) == Alive(s) /\ Alive(t) /\ sl[s].k = sl[t].k /\ Put(s, sl[t]) /\ res' = <<>>
\* constructed from the exception part of another; assigned through references to the exception part
Slice(s, t) == ~Alive(s) /\ Alive(t) /\ Put(s, Mk(Base, <<>>, 0)) /\ res' = <<>>
AssignBase(s, t) == Alive(s) /\ Alive(t) /\ Same /\ res' = <<>>
\* the error of a bad_expected_access can be changed in place
Poke(s, x)  == Alive(s) /\ sl[s].k = Exp /\ Put(s, [sl[s] EXCEPT !.x = x]) /\ res' = <<>>
Del(s)      == Alive(s) /\ Put(s, Dead) /\ res' = <<>>
\* what a handler for kind h sees of o: the handler, the error it can reach, the text
Seen(h, o) == <<h, IF h \in {Exp, User} THEN o.x ELSE 0>> \o What(o)
\* how: 0 the handlers of all kinds, most derived first; 1 logic_error, then exception; 2 exception only;
\* 3 exception only, after being thrown on from an inner handler; 4 exception by value (sliced);
\* 5 bad_expected_access<void>, then exception
Caught(o, how) ==
    CASE how = 5 -> Seen(IF o.k = Exp THEN AnyExp ELSE Base, o)
      [] how = 0 -> Seen(o.k, o)
      [] how = 1 -> Seen(IF IsA(o.k, Logic) THEN Logic ELSE Base, o)
      [] how \in {2, 3} -> Seen(Base, o)
      [] how = 4 -> <<Base, 0>> \o TBase
Throw(s, how) == Alive(s) /\ Same /\ res' = Caught(sl[s], how)
\* an expected holding the captured exception: value() throws that very exception
Carry(s, how, w) == Throw(s, how)
\* the error read or moved out: from an lvalue, a constant, an expiring one, an expiring constant
Take(s, w)  == /\ Alive(s) /\ sl[s].k = Exp /\ res' = <<sl[s].x>>
               /\ IF w = 2 THEN Put(s, [sl[s] EXCEPT !.x = Moved]) ELSE Same
\* thrown by the library: value() of an empty optional, value() of an expected holding error x, and of
\* one holding an error code x; w: through an lvalue, a constant, an expiring one, an expiring constant;
\* 4, 5: expected<void>
Raise(k, x, how, w) ==
    /\ k \in {Opt, Exp, Sys} /\ w \in (IF k = Exp THEN 0..5 ELSE 0..3) /\ Same
    /\ res' = IF k = Sys THEN IF how = 0 THEN <<Sys, x>> ELSE <<0 - 1>> ELSE Caught(Mk(k, <<>>, x), how)
Reset       == sl' = [s \in Slot |-> Dead] /\ res' = <<>>
Do(e) ==
  \/ e.op = "new" /\ New(e.s, e.k, e.q, e.x, e.how)
  \/ e.op = "copy" /\ Copy(e.s, e.t)
  \/ e.op = "set" /\ Assign(e.s, e.t)
  \/ e.op = "slice" /\ Slice(e.s, e.t)
  \/ e.op = "setbase" /\ AssignBase(e.s, e.t)
  \/ e.op = "poke" /\ Poke(e.s, e.x)
  \/ e.op = "del" /\ Del(e.s)
  \/ e.op = "throw" /\ Throw(e.s, e.how)
  \/ e.op = "raise" /\ Raise(e.k, e.x, e.how, e.w)
  \/ e.op = "take" /\ Take(e.s, e.w)
  \/ e.op = "carry" /\ Carry(e.s, e.how, e.w)
  \/ e.op = "reset" /\ Reset
\* observed: kind, error, text; errors alive (one per bad_expected_access)
Errs(x) == {s \in Slot : x[s].k = Exp}
RECURSIVE Card(_)
Card(S) == IF S = {} THEN 0 ELSE 1 + Card(S \ {CHOOSE s \in S : TRUE})
ProjOf(x) == [v |-> [s \in Slot |-> <<x[s].k, x[s].x, IF x[s].k = 0 THEN <<>> ELSE What(x[s])>>], live |-> Card(Errs(x)), bad |-> 0]
TypeOK == \A s \in Slot : sl[s].k \in 0..6 /\ (sl[s].k \notin {Logic, Sub, User} => sl[s].q = <<>>)
\* an exception is always caught by a handler of its own kind and of every base, with its own text unless sliced
Bases == \A k \in Kinds : IsA(k, Base) /\ IsA(k, Parent(k)) /\ (k # Base => ~IsA(Base, k))
Independent == [][\A s \in Slot : sl'[s] # sl[s] => (ev'.op = "reset" \/ ev'.s = s)]_vars
\* throwing leaves the exception thrown from as it was; a caught text is the text of the thrown one
Keeps == [][ev'.op \in {"throw", "carry"} => sl' = sl /\ (ev'.how # 4 => SubSeq(res', 3, Len(res')) = What(sl[ev'.s]))]_vars
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}
Ops == [op : {"new"}, s : Slot, k : Kinds, q : Texts, x : Errors, how : 0..1]
  \cup [op : {"copy", "set", "slice", "setbase"}, s : Slot, t : Slot] \cup [op : {"del"}, s : Slot]
  \cup [op : {"poke"}, s : Slot, x : Errors] \cup [op : {"throw"}, s : Slot, how : 0..5]
  \cup [op : {"take"}, s : Slot, w : 0..3] \cup [op : {"carry"}, s : Slot, how : 0..5, w : 0..3]
  \cup [op : {"raise"}, k : {Opt, Exp, Sys}, x : Errors, how : 0..5, w : 0..5]
Next == \E e \in Ops : Do(e) /\ ev' = e
View == sl
Emit == PrintT(ToJson([from |-> ProjOf(sl), ev |-> ev' @@ [res |-> res'], to |-> ProjOf(sl')]))
=============================================================================
