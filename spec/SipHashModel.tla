---------------------------- MODULE SipHashModel ----------------------------
(* The reference run of the SipHash paper: key 00 01 .. 0f, message 00 01 .. *)
(* absorbed byte by byte; the digest of every prefix is compared with the    *)
(* published vectors, and absorbing in blocks gives the same as bytewise.     *)
EXTENDS SipHash, TLC
CONSTANT MaxLen
VARIABLES s8, s16, n
vars == <<s8, s16, n>>
Key == [i \in 1..16 |-> i - 1]
Init == s8 = Ini(Key, 8) /\ s16 = Ini(Key, 16) /\ n = 0
Next == n < MaxLen /\ s8' = Absorb(s8, n) /\ s16' = Absorb(s16, n) /\ n' = n + 1
V8 == << <<49, 14, 14, 221, 71, 219, 111, 114>>, <<253, 103, 220, 147, 197, 57, 248, 116>>,
         <<90, 79, 169, 217, 9, 128, 108, 13>>, <<45, 126, 251, 215, 150, 102, 103, 133>>,
         <<183, 135, 113, 39, 224, 148, 39, 207>>, <<141, 166, 153, 205, 100, 85, 118, 24>>,
         <<206, 227, 254, 88, 110, 70, 201, 203>>, <<55, 209, 1, 139, 245, 0, 2, 171>>,
         <<98, 36, 147, 154, 121, 245, 245, 147>> >>
V15 == <<229, 69, 190, 73, 97, 202, 41, 161>>
W0128 == <<163, 129, 127, 4, 186, 37, 168, 230, 109, 246, 114, 20, 199, 85, 2, 147>>
Vectors == /\ n < Len(V8) => Digest(s8) = V8[n + 1]
           /\ n = 15 => Digest(s8) = V15
           /\ n = 0 => Digest(s16) = W0128
Bytes == \A b \in {s8, s16} : Len(b.part) = n % 8 /\ b.len = n /\ Digest(b) = Sip(Key, [i \in 1..n |-> i - 1], b.n)
=============================================================================
