-------------------------------- MODULE Word --------------------------------
(* 64-bit words as four 16-bit limbs, most significant first.                *)
EXTENDS Integers, Sequences, Bitwise
B16 == 65536
W0 == <<0, 0, 0, 0>>
\* tuples are written out: TLC evaluates them once
Xor64(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
Plus64(a, b) ==
    LET d == a[4] + b[4]
        c == a[3] + b[3] + d \div B16
        e == a[2] + b[2] + c \div B16
        f == a[1] + b[1] + e \div B16
    IN <<f % B16, e % B16, c % B16, d % B16>>
P2of[i \in 0..16] == IF i = 0 THEN 1 ELSE 2 * P2of[i - 1]
\* rotate left by 16 * q + r bits
Rotl(a, n) ==
    LET q == n \div 16 r == n % 16
        at(i) == a[((i - 1 + q) % 4) + 1]
            l(i) == ((at(i) * P2of[r]) % B16) + (at(i + 1) \div P2of[16 - r])
    IN <<l(1), l(2), l(3), l(4)>>
\* eight bytes, least significant first
FromBytes8(s) == <<s[7] + 256 * s[8], s[5] + 256 * s[6], s[3] + 256 * s[4], s[1] + 256 * s[2]>>
ToBytes(a) == <<a[4] % 256, a[4] \div 256, a[3] % 256, a[3] \div 256, a[2] % 256, a[2] \div 256, a[1] % 256, a[1] \div 256>>
=============================================================================
