------------------------------- MODULE Atomic --------------------------------
(* A 32-bit atomic integer (values are <<low, high>> 16-bit halves, two's       *)
(* complement, wrapping) and an atomic pointer (values are offsets).             *)
EXTENDS Integers
W == 65536
Add(x, y) == LET l == x[1] + y[1] IN <<l % W, (x[2] + y[2] + l \div W) % W>>
Neg(x) == Add(<<W - 1 - x[1], W - 1 - x[2]>>, <<1, 0>>)
IOut(s, p, t, z) ==
  CASE p.o = "l" -> {<<s, s>>}
    [] p.o = "s" -> {<<p.a, <<0, 0>>>>}
    [] p.o = "i" -> {<<Add(s, <<1, 0>>), s>>}
    [] p.o = "d" -> {<<Add(s, <<W - 1, W - 1>>), s>>}
    [] p.o = "a" -> {<<Add(s, p.a), s>>}
    [] p.o = "b" -> {<<Add(s, Neg(p.a)), s>>}
    [] p.o = "x" -> {<<p.a, s>>}
    [] p.o = "c" -> {<<IF s = p.a THEN p.b ELSE s, s>>}
=============================================================================
