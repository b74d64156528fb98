---------------------------------- MODULE Hash ----------------------------------
(* sha1, fnv1a and hash_combiner: hash values of byte sequences, however they are fed. State: the kind of hasher in use and
   two hashers. Bytes and hash values are sequences of bytes; values of fnv1a and hash_combiner least significant first.
   Clause H01 (sha1) and H02 (fnv1a, hash_combiner).                                                                 *)
EXTENDS Utf, Sha1, TLC
\* kinds: 0 sha1; fnv1a: 1 32 bits, 2 64, 3 128; hash_combiner: 4 16 bits, 5 32, 6 64, 7 128
Clause(s) == IF s.kind = 0 THEN "H01" ELSE "H02"
If(p, set) == IF p THEN set ELSE {}
Size == <<20, 4, 8, 16, 2, 4, 8, 16>>
Sz(k) == Size[k + 1]
Rest(o, k) == SubSeq(o, k, Len(o))
Rep(n, x) == [k \in 1..n |-> x]
Basis(k) == CASE k = 1 -> <<197, 157, 28, 129>>
              [] k = 2 -> <<37, 35, 34, 132, 228, 156, 242, 203>>
              [] k = 3 -> <<141, 197, 149, 98, 117, 33, 184, 98, 66, 1, 187, 7, 46, 39, 98, 108>>
              [] OTHER -> Rep(Sz(k), 0)
\* v * (2^(8*sh) + m), modulo the size of v
RECURSIVE MulSmall(_, _, _, _)
MulSmall(v, m, i, c) == IF i > Len(v) THEN <<>> ELSE LET x == v[i] * m + c IN <<x % 256>> \o MulSmall(v, m, i + 1, x \div 256)
ShlBytes(v, b) == [k \in 1..Len(v) |-> IF k <= b THEN 0 ELSE v[k - b]]
RECURSIVE Add(_, _, _, _)
Add(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET x == a[i] + b[i] + c IN <<x % 256>> \o Add(a, b, i + 1, x \div 256)
Plus(a, b) == Add(a, b, 1, 0)
Prime(k) == CASE k = 1 -> <<3, 403>> [] k = 2 -> <<5, 435>> [] OTHER -> <<11, 315>>    \* 2^(8*first) + second
Mul(v, k) == Plus(ShlBytes(v, Prime(k)[1]), MulSmall(v, Prime(k)[2], 1, 0))
Byte1(v, k, b) == Mul(<<v[1] ^^ b>> \o Rest(v, 2), k)
RECURSIVE Fnv(_, _, _, _)
Fnv(v, k, bs, i) == IF i > Len(bs) THEN v ELSE Fnv(Byte1(v, k, bs[i]), k, bs, i + 1)
XorB(a, b) == [k \in 1..Len(a) |-> a[k] ^^ b[k]]
Shl(v, n) == LET w == ShlBytes(v, n \div 8) IN IF n % 8 = 0 THEN w ELSE MulSmall(w, 2 ^ (n % 8), 1, 0)
Shr(v, n) == LET At(k) == IF k <= Len(v) THEN v[k] ELSE 0  b == n \div 8  r == n % 8
             IN [k \in 1..Len(v) |-> (At(k + b) \div 2 ^ r) + ((At(k + b + 1) % 2 ^ r) * 2 ^ (8 - r))]
Golden(k) == CASE k = 4 -> <<55, 158>>
               [] k = 5 -> <<185, 121, 55, 158>>
               [] k = 6 -> <<21, 124, 74, 127, 185, 121, 55, 158>>
               [] OTHER -> <<84, 97, 57, 93, 96, 192, 156, 243, 21, 124, 74, 127, 185, 121, 55, 158>>
Shifts(k) == CASE k = 4 -> <<3, 1>> [] k = 5 -> <<6, 2>> [] k = 6 -> <<12, 4>> [] OTHER -> <<24, 8>>
Combine(v, k, h) == XorB(v, Plus(Plus(Plus(h, Golden(k)), Shl(v, Shifts(k)[1])), Shr(v, Shifts(k)[2])))

\* a hasher: [m: bytes fed (sha1), v: value, done]
New(k) == [m |-> <<>>, v |-> IF k = 0 THEN <<>> ELSE Basis(k), done |-> FALSE]
Init0 == [kind |-> 0, r |-> <<New(0), New(0)>>]
Feed(s, i, bs) == IF s.kind = 0 THEN IF s.r[i].done THEN s ELSE [s EXCEPT !.r[i].m = @ \o bs]
                  ELSE [s EXCEPT !.r[i].v = Fnv(@, s.kind, bs, 1)]
Utf8Of(u, w) == EncAll(Points(Items(u, w)), 1)
Step(s, e) ==
    LET o == e.op IN
    CASE o[1] = "kind"   -> [kind |-> o[2], r |-> <<New(o[2]), New(o[2])>>]
      [] o[1] = "new"    -> [s EXCEPT !.r[o[2]] = New(s.kind)]
      [] o[1] = "bytes"  -> Feed(s, o[2], Rest(o, 4))                 \* o[3]: how they are passed
      [] o[1] = "text"   -> Feed(s, o[2], Utf8Of(Rest(o, 4), IF o[3] = 4 THEN 2 ELSE 4)) \* o[3]: 4 char16_t, 5 char32_t, 2 wchar_t
      [] o[1] = "fill"   -> Feed(s, o[2], [k \in 1..o[3] |-> (o[4] + k * o[5]) % 256])   \* o[6] bytes at a time
      [] o[1] = "copy"   -> [s EXCEPT !.r[o[2]] = s.r[o[3]]]
      [] o[1] = "finish" -> IF s.r[o[2]].done THEN s ELSE [s EXCEPT !.r[o[2]].done = TRUE, !.r[o[2]].v = SHA1(s.r[o[2]].m)]
      [] o[1] = "seed"   -> [s EXCEPT !.r[o[2]].v = Rest(o, 3)]
      [] o[1] = "comb"   -> [s EXCEPT !.r[o[2]].v = Combine(@, s.kind, Rest(o, 3))]
      [] OTHER -> s
\* observation: per hasher, its value (of a finished sha1), in the order it is printed in, and whether printing it gives
\* these bytes in lower-case hexadecimal
Show(s, i) == IF s.kind = 0 THEN IF s.r[i].done THEN s.r[i].v \o <<1>> ELSE <<>>
              ELSE LET v == s.r[i].v IN [k \in 1..Len(v) |-> v[Len(v) + 1 - k]] \o <<1>>
Rejects(s, e) ==
    LET o == e.op IN
    IF o[1] \in {"crash", "hang"} THEN {<<Clause(s), o[1]>>}
    ELSE IF o[1] = "fin" THEN {}
    ELSE LET t == Step(s, e) IN If(e.out # Show(t, 1) \o Show(t, 2), {<<Clause(s), "hash value differs">>})

Texts == {<<>>, <<97>>, <<97, 0, 98>>, <<233, 8364>>, <<65279, 97>>}
AllOps(s) ==
    (IF s = Init0 THEN {<<"kind", k>> : k \in 0..7} ELSE {})
    \cup (IF s.kind > 3 THEN {}
          ELSE {<<"bytes", 1, h>> \o b : h \in 0..4, b \in {<<>>, <<0>>, <<97, 255, 128>>}}
               \cup {<<"text", 1, e>> \o u : e \in {2, 4, 5}, u \in Texts}
               \cup {<<"copy", 2, 1>>, <<"new", 1>>})
    \cup (IF s.kind = 0 THEN {<<"finish", 1>>, <<"finish", 2>>} \cup {<<"fill", 1, n, 7, 3, c>> : n \in {1, 54, 55, 56, 63, 64, 65, 119, 120, 128}, c \in {1, 17, 64, 65, 1000}} ELSE {})
    \cup (IF s.kind > 3 THEN {<<nm, 1>> \o [k \in 1..Sz(s.kind) |-> x] : nm \in {"seed", "comb"}, x \in {0, 1, 128, 255}} ELSE {})
GenOps(s) == AllOps(s)
GenBound(s) == TRUE
===============================================================================
