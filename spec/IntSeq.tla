------------------------------- MODULE IntSeq -------------------------------
(* tao::seq, the compile-time integer sequences behind the tuple: every type  *)
(* expression denotes a sequence, a constant or a type.                       *)
EXTENDS Integers, Sequences, SequencesExt
\* ---- the common type of two integer types, by the usual arithmetic conversions ---------------
Promoted(t) == IF t \in {"schar", "short"} THEN "int" ELSE t
Rank(t) == CASE t = "int" -> 1 [] t = "uint" -> 2 [] t = "long" -> 3 [] t = "sz" -> 4 [] t = "ll" -> 5 [] t = "ull" -> 6
Common(a, b) ==
    LET x == Promoted(a) y == Promoted(b)
        hi == IF Rank(x) >= Rank(y) THEN x ELSE y
        lo == IF hi = x THEN y ELSE x
    IN IF a = b THEN a ELSE IF hi = "ll" /\ lo = "sz" THEN "ull" ELSE hi
\* ---- the operations ---------------------------------------------------------------------------
Iota(n) == [i \in 1..n |-> i - 1]
Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
Part(q, i) == Sum(SubSeq(q, 1, i))
Exclusive(q) == [i \in 1..Len(q) |-> Part(q, i - 1)]
Inclusive(q) == [i \in 1..Len(q) |-> Part(q, i)]
ZipWith(Op(_, _), q, p) == [i \in 1..Len(q) |-> Op(q[i], p[i])]
Plus(q, p) == ZipWith(LAMBDA x, y : x + y, q, p)
Minus(q, p) == ZipWith(LAMBDA x, y : x - y, q, p)
Times(q, p) == ZipWith(LAMBDA x, y : x * y, q, p)
Pick(q, i) == q[i + 1]                     \* positions count from zero
MapTo(ix, q) == [i \in 1..Len(ix) |-> Pick(q, ix[i])]
All(q) == \A i \in 1..Len(q) : q[i] = 1
Bit(b) == IF b THEN 1 ELSE 0
\* ---- what an expression denotes: <<type, values>>, or <<type, value>> for constants -------------
Value(e) ==
    CASE e.op = "make" -> <<e.ty[1], Iota(e.i)>>
      [] e.op \in {"makeidx", "idxfor"} -> <<"size", Iota(e.i)>>          \* the library's size_t
      [] e.op = "seq" -> <<e.ty[1], e.q>>
      [] e.op = "sum" -> <<e.ty[1], Sum(e.q)>>
      [] e.op = "part" -> <<e.ty[1], Part(e.q, e.i)>>
      [] e.op = "sel" -> <<e.ty[1], Pick(e.q, e.i)>>
      [] e.op = "excl" -> <<e.ty[1], Exclusive(e.q)>>
      [] e.op = "incl" -> <<e.ty[1], Inclusive(e.q)>>
      [] e.op = "plus" -> <<Common(e.ty[1], e.ty[2]), Plus(e.q, e.p)>>
      [] e.op = "minus" -> <<Common(e.ty[1], e.ty[2]), Minus(e.q, e.p)>>
      [] e.op = "times" -> <<Common(e.ty[1], e.ty[2]), Times(e.q, e.p)>>
      [] e.op = "map" -> <<e.ty[1], MapTo(e.p, e.q)>>
      [] e.op = "all" -> <<"bool", Bit(All(e.q))>>
      [] e.op = "at" -> <<e.ty[e.i + 1], 0>>
=============================================================================
