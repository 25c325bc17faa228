------------------------------ MODULE SipHash ------------------------------
(* SipHash-2-4 with 64 and 128 bit output, as a machine that absorbs a       *)
(* message byte by byte: four words of state, the bytes not yet absorbed and *)
(* the length so far.  Written from the definition of SipHash.               *)
EXTENDS Word, SequencesExt
Half(x, y, n) == LET p == Plus64(x, y) IN <<p, Xor64(Rotl(y, n), p)>>
Round(v) ==
    LET a == Half(v[1], v[2], 13)
        b == Half(v[3], v[4], 16)
        c == Half(Rotl(a[1], 32), b[2], 21)
        d == Half(b[1], a[2], 17)
    IN <<c[1], d[2], Rotl(d[1], 32), c[2]>>
Rounds(v, n) == IF n = 2 THEN Round(Round(v)) ELSE Round(Round(Round(Round(v))))
\* "somepseudorandomlygeneratedbytes"
C0 == <<29551, 28005, 28787, 25973>>
C1 == <<25711, 29281, 28260, 28525>>
C2 == <<27769, 26469, 28261, 29281>>
C3 == <<29797, 25698, 31092, 25971>>
Ini(key, n) ==
    LET k0 == FromBytes8(SubSeq(key, 1, 8)) k1 == FromBytes8(SubSeq(key, 9, 16))
    IN [v |-> <<Xor64(C0, k0), IF n = 16 THEN Xor64(Xor64(C1, k1), <<0, 0, 0, 238>>) ELSE Xor64(C1, k1), Xor64(C2, k0), Xor64(C3, k1)>>,
        part |-> <<>>, len |-> 0, n |-> n]
Mix(v, m) == LET w == Rounds([v EXCEPT ![4] = Xor64(@, m)], 2) IN [w EXCEPT ![1] = Xor64(@, m)]
Absorb(s, byte) ==
    LET p == Append(s.part, byte)
    IN IF Len(p) = 8 THEN [s EXCEPT !.v = Mix(s.v, FromBytes8(p)), !.part = <<>>, !.len = @ + 1]
       ELSE [s EXCEPT !.part = p, !.len = @ + 1]
Pad(s) == FromBytes8(s.part \o [i \in 1..(7 - Len(s.part)) |-> 0] \o <<s.len % 256>>)
Out(v) == Xor64(Xor64(v[1], v[2]), Xor64(v[3], v[4]))
Digest(s) ==
    LET m == Mix(s.v, Pad(s))
        f == Rounds([m EXCEPT ![3] = Xor64(@, <<0, 0, 0, IF s.n = 16 THEN 238 ELSE 255>>)], 4)
        g == Rounds([f EXCEPT ![2] = Xor64(@, <<0, 0, 0, 221>>)], 4)
    IN IF s.n = 8 THEN ToBytes(Out(f)) ELSE ToBytes(Out(f)) \o ToBytes(Out(g))
\* eight bytes at a time; SipHashModel checks that the two agree (Bytewise)
Words(key, msg, n) ==
    LET k == Len(msg) \div 8
        at(i) == <<msg[8 * i + 7] + 256 * msg[8 * i + 8], msg[8 * i + 5] + 256 * msg[8 * i + 6],
                   msg[8 * i + 3] + 256 * msg[8 * i + 4], msg[8 * i + 1] + 256 * msg[8 * i + 2]>>
        s == Ini(key, n)
    IN [s EXCEPT !.v = FoldLeft(LAMBDA v, i : Mix(v, at(i - 1)), @, [i \in 1..k |-> i]),
                 !.part = SubSeq(msg, 8 * k + 1, Len(msg)), !.len = Len(msg)]
Sip(key, msg, n) == Digest(Words(key, msg, n))
Bytewise(key, msg, n) == Digest(FoldLeft(Absorb, Ini(key, n), msg))
=============================================================================
