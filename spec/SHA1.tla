-------------------------------- MODULE SHA1 --------------------------------
(***************************************************************************)
(* SHA-1 (FIPS 180-4).  A word is a pair of 16-bit halves, since TLC's     *)
(* integers are signed 32-bit.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

LOCAL H16 == 65536
LOCAL WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
LOCAL WOr(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
LOCAL WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
LOCAL Inv(a)    == <<65535 - a[1], 65535 - a[2]>>
LOCAL Add(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div H16)) % H16, l % H16>>

LOCAL Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
\* Rotation to the left by n < 16
LOCAL Rot(a, n) == LET p == Pow2[n + 1]
                       q == H16 \div p
                   IN  <<((a[1] * p) % H16) + (a[2] \div q), ((a[2] * p) % H16) + (a[1] \div q)>>
\* ... and by 30
LOCAL Rot30(a) == Rot(<<a[2], a[1]>>, 14)

\* The message, padded; the length in bits is below 2^31
LOCAL Padded(m) ==
    LET zeros == (119 - (Len(m) % 64)) % 64
        bits == 8 * Len(m)
    IN  m \o <<128>> \o [i \in 1..zeros |-> 0] \o <<0, 0, 0, 0>>
          \o <<bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>

LOCAL WordAt(m, i) == <<256 * m[i] + m[i + 1], 256 * m[i + 2] + m[i + 3]>>

RECURSIVE Schedule(_)
LOCAL Schedule(w) ==
    IF Len(w) = 80 THEN w
    ELSE LET t == Len(w) + 1
         IN  Schedule(Append(w, Rot(WXor(WXor(w[t - 3], w[t - 8]), WXor(w[t - 14], w[t - 16])), 1)))

LOCAL F(t, b, c, d) == CASE t <= 20 -> WOr(WAnd(b, c), WAnd(Inv(b), d))
                         [] t <= 40 -> WXor(WXor(b, c), d)
                         [] t <= 60 -> WOr(WOr(WAnd(b, c), WAnd(b, d)), WAnd(c, d))
                         [] OTHER   -> WXor(WXor(b, c), d)
LOCAL K(t) == CASE t <= 20 -> <<23170, 31129>>   \* 5a827999
                [] t <= 40 -> <<28377, 60321>>   \* 6ed9eba1
                [] t <= 60 -> <<36635, 48348>>   \* 8f1bbcdc
                [] OTHER   -> <<51810, 49622>>   \* ca62c1d6

RECURSIVE Rounds(_, _, _)
LOCAL Rounds(w, t, s) ==
    IF t > 80 THEN s
    ELSE LET tmp == Add(Add(Add(Rot(s[1], 5), F(t, s[2], s[3], s[4])), Add(s[5], w[t])), K(t))
         IN  Rounds(w, t + 1, <<tmp, s[1], Rot30(s[2]), s[3], s[4]>>)

RECURSIVE Blocks(_, _, _)
LOCAL Blocks(m, i, h) ==
    IF i > Len(m) THEN h
    ELSE LET s == Rounds(Schedule([j \in 1..16 |-> WordAt(m, i + 4 * (j - 1))]), 1, h)
         IN  Blocks(m, i + 64, [j \in 1..5 |-> Add(h[j], s[j])])

\* 67452301 efcdab89 98badcfe 10325476 c3d2e1f0
LOCAL Initial == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>

LOCAL BytesOf(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>

SHA1(m) == LET h == Blocks(Padded(m), 1, Initial)
           IN  BytesOf(h[1]) \o BytesOf(h[2]) \o BytesOf(h[3]) \o BytesOf(h[4]) \o BytesOf(h[5])
=============================================================================
