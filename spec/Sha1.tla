--------------------------------- MODULE Sha1 ----------------------------------
(* SHA-1 (FIPS 180-4) of a sequence of bytes. A 32-bit word is <<high half, low half>>.                               *)
EXTENDS Integers, Sequences, Bitwise
LOCAL XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
LOCAL AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
LOCAL OrW(a, b) == <<a[1] | b[1], a[2] | b[2]>>
LOCAL NotW(a) == <<65535 - a[1], 65535 - a[2]>>
LOCAL AddW(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div 65536) % 65536, lo % 65536>>
LOCAL Rot16(a, n) == LET p == 2 ^ n  q == 2 ^ (16 - n) IN \* n in 1..15
    <<((a[1] * p) % 65536) + a[2] \div q, ((a[2] * p) % 65536) + a[1] \div q>>
LOCAL Rol(a, n) == IF n < 16 THEN Rot16(a, n) ELSE Rot16(<<a[2], a[1]>>, n - 16)
LOCAL F(t, b, c, d) == CASE t < 20 -> OrW(AndW(b, c), AndW(NotW(b), d))
                         [] t >= 40 /\ t < 60 -> OrW(OrW(AndW(b, c), AndW(b, d)), AndW(c, d))
                         [] OTHER -> XorW(XorW(b, c), d)
LOCAL K(t) == CASE t < 20 -> <<23170, 31129>> [] t < 40 -> <<28377, 60321>> [] t < 60 -> <<36635, 48348>> [] OTHER -> <<51810, 49622>>
RECURSIVE SWords(_, _)
SWords(w, t) == IF t > 80 THEN w ELSE SWords(Append(w, Rol(XorW(XorW(w[t - 3], w[t - 8]), XorW(w[t - 14], w[t - 16])), 1)), t + 1)
RECURSIVE SRound(_, _, _)
SRound(v, w, t) ==
    IF t = 80 THEN v
    ELSE LET x == AddW(AddW(AddW(Rol(v[1], 5), F(t, v[2], v[3], v[4])), AddW(v[5], K(t))), w[t + 1])
         IN SRound(<<x, v[1], Rol(v[2], 30), v[3], v[4]>>, w, t + 1)
RECURSIVE SLoad(_, _, _)
SLoad(m, i, w) == IF Len(w) = 16 THEN w ELSE SLoad(m, i + 4, Append(w, <<m[i] * 256 + m[i + 1], m[i + 2] * 256 + m[i + 3]>>))
RECURSIVE SBlocks(_, _, _)
SBlocks(m, i, h) ==
    IF i > Len(m) THEN h
    ELSE LET r == SRound(h, SWords(SLoad(m, i, <<>>), 17), 0)
         IN SBlocks(m, i + 64, <<AddW(h[1], r[1]), AddW(h[2], r[2]), AddW(h[3], r[3]), AddW(h[4], r[4]), AddW(h[5], r[5])>>)
RECURSIVE SZeros(_)
SZeros(n) == IF n = 0 THEN <<>> ELSE Append(SZeros(n - 1), 0)
LOCAL Pad(m) == LET n == Len(m)  z == (119 - (n % 64)) % 64 IN    \* n + 1 + z = 56 modulo 64
    m \o <<128>> \o SZeros(z) \o <<0, 0, 0, 0, 0, (n \div 8192), ((n \div 32) % 256), ((n * 8) % 256)>>
LOCAL Bytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
SHA1(m) == LET h == SBlocks(Pad(m), 1, <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>)
           IN Bytes(h[1]) \o Bytes(h[2]) \o Bytes(h[3]) \o Bytes(h[4]) \o Bytes(h[5])
===============================================================================
