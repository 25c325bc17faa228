--------------------------------- MODULE Tls ---------------------------------
(* Thread local slots: one value per thread and slot, 0 (NULL) until set.        *)
EXTENDS Integers
LInit == [up |-> {}, val |-> <<>>]
LOut(s, p, t, z) ==
  CASE p.o = "K" -> {<<[s EXCEPT !.up = @ \cup {p.a}, !.val = [x \in {y \in DOMAIN @ : y[2] # p.a} |-> @[x]]], 1>>}
    [] p.o = "D" -> {<<[s EXCEPT !.up = @ \ {p.a}], 0>>}
    [] p.o = "S" -> {<<[s EXCEPT !.val = [x \in DOMAIN @ \cup {<<t, p.a>>} |-> IF x = <<t, p.a>> THEN p.b ELSE @[x]]], 0>>}
    [] p.o = "G" -> {<<s, IF <<t, p.a>> \in DOMAIN s.val THEN s.val[<<t, p.a>>] ELSE 0>>}
=============================================================================
