-------------------------------- MODULE Half --------------------------------
(* muu::half, the 16-bit floating-point number (half.h), in each of its three builds: around the compiler's own 16-bit type,
   emulated with the processor's conversion instructions, and emulated in software (also during compilation).
   State: two bit patterns a and b. The model decodes a pattern into sign, significand and exponent, computes exactly
   (with a sticky bit where the exponents are far apart) and rounds to nearest, ties to even. Clause N05.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
Abs(x) == IF x < 0 THEN 0 - x ELSE x
NaN == 99999
Inf == 31744
Sgn(u) == u \div 32768
Mag(u) == u % 32768
IsNan(u) == u = NaN \/ Mag(u) > Inf
IsInf(u) == u # NaN /\ Mag(u) = Inf
IsZero(u) == u # NaN /\ Mag(u) = 0
Finite(u) == u # NaN /\ Mag(u) < Inf
\* a finite pattern is Man(u) * 2^Ex(u)
Man(u) == IF Mag(u) < 1024 THEN Mag(u) ELSE (Mag(u) % 1024) + 1024
Ex(u) == IF Mag(u) < 1024 THEN -24 ELSE (Mag(u) \div 1024) - 25
Neg(u) == IF IsNan(u) THEN NaN ELSE IF u >= 32768 THEN u - 32768 ELSE u + 32768
Canon(u) == IF IsNan(u) THEN NaN ELSE u
RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
P2(n) == 2^n
\* the pattern nearest to (-1)^s * M * 2^E, 0 <= M < 2^29
Round(s, M, E) ==
    IF M = 0 THEN 32768 * s ELSE
    LET l == Bits(M)
        e == IF E + l - 11 > -24 THEN E + l - 11 ELSE -24
        sh == e - E
        q == IF sh <= 0 THEN M * P2(0 - sh) ELSE IF sh >= 30 THEN 0
             ELSE LET d == M \div P2(sh)  r == M % P2(sh)  h == P2(sh - 1) IN
                  IF r > h \/ (r = h /\ d % 2 = 1) THEN d + 1 ELSE d
        u == IF e > 5 THEN Inf ELSE ((e + 24) * 1024) + q IN
    (32768 * s) + (IF u > Inf THEN Inf ELSE u)
\* s*2+sticky arithmetic: the exact sum of two finite non-zero numbers, as <<signed M, E>>; the last bit may stand for a rest
SumME(u, v) ==
    LET big == IF Ex(u) >= Ex(v) THEN u ELSE v  sml == IF Ex(u) >= Ex(v) THEN v ELSE u
        d == Ex(big) - Ex(sml)
        sb == IF Sgn(big) = 1 THEN -1 ELSE 1  ss == IF Sgn(sml) = 1 THEN -1 ELSE 1 IN
    IF d <= 14 THEN <<(sb * Man(big) * P2(d)) + (ss * Man(sml)), Ex(sml)>>
    ELSE <<(sb * Man(big) * P2(14)) + ss, Ex(big) - 14>>
Add(u, v) ==
    IF IsNan(u) \/ IsNan(v) THEN NaN
    ELSE IF IsInf(u) THEN (IF IsInf(v) /\ Sgn(u) # Sgn(v) THEN NaN ELSE u)
    ELSE IF IsInf(v) THEN v
    ELSE IF IsZero(u) /\ IsZero(v) THEN (IF Sgn(u) = 1 /\ Sgn(v) = 1 THEN 32768 ELSE 0)
    ELSE IF IsZero(u) THEN v ELSE IF IsZero(v) THEN u
    ELSE LET r == SumME(u, v) IN IF r[1] = 0 THEN 0 ELSE Round(B(r[1] < 0), Abs(r[1]), r[2])
Sub(u, v) == Add(u, Neg(v))
Xor(u, v) == (Sgn(u) + Sgn(v)) % 2
Mul(u, v) ==
    IF IsNan(u) \/ IsNan(v) THEN NaN
    ELSE IF IsInf(u) \/ IsInf(v) THEN (IF IsZero(u) \/ IsZero(v) THEN NaN ELSE Inf + (32768 * Xor(u, v)))
    ELSE Round(Xor(u, v), Man(u) * Man(v), Ex(u) + Ex(v))
\* normalized: 1024 <= N < 2048
Norm(u) == Man(u) * P2(11 - Bits(Man(u)))
NormE(u) == Ex(u) - (11 - Bits(Man(u)))
Div(u, v) ==
    IF IsNan(u) \/ IsNan(v) THEN NaN
    ELSE IF IsInf(u) THEN (IF IsInf(v) THEN NaN ELSE Inf + (32768 * Xor(u, v)))
    ELSE IF IsInf(v) THEN 32768 * Xor(u, v)
    ELSE IF IsZero(v) THEN (IF IsZero(u) THEN NaN ELSE Inf + (32768 * Xor(u, v)))
    ELSE IF IsZero(u) THEN 32768 * Xor(u, v)
    ELSE LET n == Norm(u) * P2(14)  q == n \div Norm(v) IN
         Round(Xor(u, v), (2 * q) + B(q * Norm(v) # n), NormE(u) - NormE(v) - 15)
\* -1, 0, 1 of finite or infinite patterns
Key(u) == IF Sgn(u) = 1 THEN 0 - Mag(u) ELSE Mag(u)
OrderOf(lt, eq) == B(eq) + (2 * B(~eq)) + (4 * B(lt)) + (8 * B(lt \/ eq)) + (16 * B(~lt /\ ~eq)) + (32 * B(~lt))
Order(u, v) == IF IsNan(u) \/ IsNan(v) THEN 2 ELSE OrderOf(Key(u) < Key(v), Key(u) = Key(v))
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) == IF lo + 1 >= hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Isqrt(n, m, hi) ELSE Isqrt(n, lo, m)
Sqrt(u) == IF IsNan(u) THEN NaN ELSE IF IsZero(u) THEN u ELSE IF Sgn(u) = 1 THEN NaN ELSE IF IsInf(u) THEN u
           ELSE LET odd == NormE(u) % 2  n == Norm(u) * P2(16 + odd)  r == Isqrt(n, 0, 32768) IN
                Round(0, (2 * r) + B(r * r # n), ((NormE(u) - 16 - odd) \div 2) - 1)
\* the exact value as <<sign, m, e>> with m odd; NaN is <<2,0,0>>, infinity <<s, 1, 99>>
RECURSIVE Odd(_, _, _)
Odd(s, m, e) == IF m = 0 THEN <<s, 0, 0>> ELSE IF m % 2 = 0 THEN Odd(s, m \div 2, e + 1) ELSE <<s, m, e>>
Value(u) == IF IsNan(u) THEN <<2, 0, 0>> ELSE IF IsInf(u) THEN <<Sgn(u), 1, 99>> ELSE Odd(Sgn(u), Man(u), Ex(u))
\* towards zero; |value| < 65536
Trunc(u) == LET t == IF Ex(u) >= 0 THEN Man(u) * P2(Ex(u)) ELSE Man(u) \div P2(0 - Ex(u)) IN IF Sgn(u) = 1 THEN 0 - t ELSE t
HasRest(u) == Ex(u) < 0 /\ Man(u) % P2(0 - Ex(u)) # 0
OfInt(n) == IF Abs(n) < P2(29) THEN Round(B(n < 0), Abs(n), 0) ELSE IF n < 0 THEN Inf + 32768 ELSE Inf
\* whether a zero result of rounding a fraction keeps its sign is left open
FloorOk(u, w) == IF ~Finite(u) \/ ~HasRest(u) THEN (w = Canon(u) \/ (IsZero(u) /\ IsZero(w)))
                 ELSE LET t == Trunc(u) - Sgn(u) IN IF t = 0 THEN IsZero(w) ELSE w = OfInt(t)
CeilOk(u, w) == IF ~Finite(u) \/ ~HasRest(u) THEN (w = Canon(u) \/ (IsZero(u) /\ IsZero(w)))
                ELSE LET t == Trunc(u) + 1 - Sgn(u) IN IF t = 0 THEN IsZero(w) ELSE w = OfInt(t)
AbsH(u) == IF IsNan(u) THEN NaN ELSE Mag(u)
RowOk(u, w) ==
    /\ <<w[1], w[2], w[3]>> = Value(u)
    /\ w[4] = 1
    /\ w[5] = Canon(u)
    /\ w[6] = B(Mag(u) >= Inf)
    /\ w[7] = B(Mag(u) # 0)
    /\ w[8] = Neg(u)
    /\ w[9] = AbsH(u)
    /\ FloorOk(u, w[10])
    /\ CeilOk(u, w[11])
    /\ w[12] = (IF Finite(u) THEN Trunc(u) ELSE 0)
    /\ w[13] = Canon(u)
All(w, from, to, v) == \A i \in from..to : w[i] = v
Four(u, v) == <<Add(u, v), Sub(u, v), Mul(u, v), Div(u, v)>>
\* fourteen numbers: each operation in two forms, the four assignments, the order in two forms
MixOk(u, v, w, at) == LET f == Four(u, v) IN
    /\ \A i \in 1..4 : w[at + (2 * i) - 1] = f[i] /\ w[at + (2 * i)] = f[i] /\ w[at + 8 + i] = f[i]
    /\ w[at + 13] = Order(u, v) /\ w[at + 14] = Order(u, v)
ArithOk(u, v, w) == /\ Len(w) = 88 /\ \A k \in 0..5 : MixOk(u, v, w, 14 * k)
                    /\ <<w[85], w[86], w[87], w[88]>> = Four(u, u)
\* results in a wider type are exact as far as 24 bits of precision go
SumValue(u, v) == LET r == SumME(u, v) IN IF r[1] = 0 THEN <<0, 0, 0>> ELSE Odd(B(r[1] < 0), Abs(r[1]), r[2])
SumOk(u, v, x) == IF ~Finite(u) \/ ~Finite(v) \/ IsZero(u) \/ IsZero(v) \/ Abs(Ex(u) - Ex(v)) > 12 THEN TRUE ELSE x = SumValue(u, v)
MulOk(u, v, x) == IF ~Finite(u) \/ ~Finite(v) THEN TRUE ELSE x = Odd(Xor(u, v), Man(u) * Man(v), Ex(u) + Ex(v))
ExactOk(u, v, w) ==
    /\ Len(w) = 15
    /\ SumOk(u, v, SubSeq(w, 1, 3)) /\ SumOk(u, Neg(v), SubSeq(w, 4, 6)) /\ SumOk(u, v, SubSeq(w, 13, 15))
    /\ MulOk(u, v, SubSeq(w, 7, 9)) /\ MulOk(u, v, SubSeq(w, 10, 12))
\* the integers a pattern is compared and combined with: a number of at most 11 bits is a pattern itself; the larger ones
\* the generator uses are powers of two, or beyond every pattern
Big(n) == Abs(n) >= 65520
IntFour(u, n) == LET v == OfInt(n) IN <<Add(u, v), Add(v, u), Sub(u, v), Sub(v, u), Mul(u, v), Mul(v, u), Div(u, v), Div(v, u)>>
IntOrder(u, n) == IF IsNan(u) THEN 2 ELSE IF Finite(u) /\ Big(n) THEN OrderOf(n > 0, FALSE) ELSE IF IsInf(u) THEN OrderOf(Sgn(u) = 1, FALSE) ELSE Order(u, OfInt(n))
IntOrderR(u, n) == IF IsNan(u) THEN 2 ELSE IF Finite(u) /\ Big(n) THEN OrderOf(n < 0, FALSE) ELSE IF IsInf(u) THEN OrderOf(Sgn(u) = 0, FALSE) ELSE Order(OfInt(n), u)
\* number of bits each integer type has, signed or not
Fits(t, n) == CASE t \in {1, 2} -> n \in -128..127 [] t = 3 -> n \in 0..255 [] t = 4 -> n \in -32768..32767 [] t = 5 -> n \in 0..65535
                [] t \in {7, 9, 11, 13} -> n >= 0 [] OTHER -> TRUE
IntOk(u, n, w) ==
    /\ Len(w) = 13 * 16
    /\ \A t \in 1..13 : LET p == 16 * (t - 1)  x == IntFour(u, n) IN
         /\ w[p + 1] = B(Fits(t, n))
         /\ Fits(t, n) =>
              /\ w[p + 14] = IntOrder(u, n) /\ w[p + 15] = IntOrderR(u, n) /\ w[p + 16] = OfInt(n)
              /\ (Abs(n) < 2048) => /\ \A i \in 1..8 : w[p + 1 + i] = x[i]
                                    /\ <<w[p + 10], w[p + 11], w[p + 12], w[p + 13]>> = <<x[1], x[3], x[5], x[7]>>
\* a against (-1)^t * m * 2^e, m < 2^13: sums that float holds exactly
Sum3(u, t, m, e) == LET lo == IF Ex(u) < e THEN Ex(u) ELSE e IN
    <<(IF Sgn(u) = 1 THEN -1 ELSE 1) * Man(u) * P2(Ex(u) - lo) + ((IF t = 1 THEN -1 ELSE 1) * m * P2(e - lo)), lo>>
FinerSum(u, t, m, e, w) == LET r == Sum3(u, t, m, e) IN IF r[1] = 0 THEN IsZero(w) ELSE w = Round(B(r[1] < 0), Abs(r[1]), r[2])
FinerOk(u, t, m, e, w) ==
    IF ~Finite(u) \/ Abs(Ex(u) - e) > 9 THEN TRUE
    ELSE /\ Len(w) = 32
         /\ \A k \in 0..3 : LET p == 8 * k  r == Sum3(u, 1 - t, m, e)[1] IN
              /\ FinerSum(u, t, m, e, w[p + 1]) /\ FinerSum(u, t, m, e, w[p + 2])
              /\ FinerSum(u, 1 - t, m, e, w[p + 3]) /\ FinerSum(Neg(u), t, m, e, w[p + 4])
              /\ w[p + 5] = Round((Sgn(u) + t) % 2, Man(u) * m, Ex(u) + e) /\ w[p + 6] = w[p + 5]
              /\ w[p + 7] = OrderOf(r < 0, r = 0) /\ w[p + 8] = OrderOf(r > 0, r = 0)
One == 15360
MOne == 48128
Text(u) == IF IsZero(u) THEN {0, 32768} ELSE {u}
UnOk(u, v, w) ==
    LET up == Add(u, One)  dn == Add(u, MOne) IN
    /\ <<w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10]>> = <<Canon(u), up, Canon(u), dn, up, dn, Canon(u), Sqrt(u), One, 0>>
    /\ IF Finite(u) THEN Len(w) = 15 /\ w[11] \in Text(u) /\ w[12] = 1 /\ w[13] \in Text(u) /\ w[14] = 0
                         /\ w[15] = Canon(v)
       ELSE Len(w) = 10
Pats == <<0, 32768, 15360, 48128, 16384, 14336, 13653, 15872, 16896, 18688, 22080, 11878, 1024, 1, 3, 1023, 23544, 19552, 51008, 15361, 32769, 55295, 31743, 64511>>
CtOk(u, v, w) ==
    LET f == Four(u, v) IN
    /\ Len(w) = 14
    /\ \A i \in 1..4 : w[i] \in {f[i], -1}
    /\ w[5] = Order(u, v) /\ w[6] = Add(u, 0)
    /\ w[7] = Neg(u) /\ w[8] = u /\ w[9] = Mag(u) /\ FloorOk(u, w[10]) /\ CeilOk(u, w[11]) /\ w[12] = 0
    /\ w[13] = B(Mag(u) # 0) /\ w[14] = Trunc(u)
Froms == <<<<0, 65519, 0>>, <<0, 65504, 0>>, <<0, 131039, -1>>, <<0, 65520, 0>>, <<1, 65520, 0>>, <<0, 1, 16>>, <<0, 1, 17>>, <<1, 3, 20>>, <<0, 1, 40>>, <<1, 1, 100>>,
    <<0, 1, -24>>, <<0, 1, -25>>, <<0, 3, -26>>, <<0, 1, -26>>, <<1, 3, -25>>, <<0, 5, -25>>, <<0, 1, -60>>, <<1, 1, -100>>, <<0, 2049, 0>>, <<0, 2051, 0>>, <<0, 2047, -25>>,
    <<0, 4095, -12>>, <<0, 4097, -12>>, <<0, 4099, -12>>, <<0, 16777215, -24>>, <<0, 16777215, -38>>, <<0, 8388607, -37>>, <<1, 1025, -34>>, <<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, -14>>>>
RoundD(d) == Round(d[1], d[2], d[3])
\* smallest normal, lowest, highest, epsilon, infinity, NaN, NaN, smallest subnormal, rounding error, digits, ...; literals
Limits == <<1024, 64511, 31743, 5120, Inf, NaN, NaN, 1, 14336, 11, 3, 5, 2, -13, 16, -4, 4, 1, 0, 1, 15872, 11878, 31743, 16896>>
Init0 == [a |-> 0, b |-> 0]
Next1(s, o) == IF o[1] = "set" THEN [a |-> o[2], b |-> o[3]] ELSE s
Step(s, e) == Next1(s, e.op)
Good(s, o, w) ==
    LET u == Canon(s.a)  v == Canon(s.b) IN
    CASE o[1] = "row" -> Len(w) = 64 * 13 /\ \A i \in 0..63 : RowOk((64 * o[2]) + i, SubSeq(w, (13 * i) + 1, (13 * i) + 13))
      [] o[1] = "arith" -> ArithOk(u, v, w)
      [] o[1] = "exact" -> ExactOk(u, v, w)
      [] o[1] = "int" -> IntOk(u, o[2], w)
      [] o[1] = "from" -> w = [i \in 1..4 |-> RoundD(<<o[2], o[3], o[4]>>)]
      [] o[1] = "fine" -> w = <<>> \/ w = [i \in 1..3 |-> RoundD(<<o[2], o[3], o[4]>>)]
      [] o[1] = "nan" -> w = <<1, 1>>
      [] o[1] = "finer" -> FinerOk(u, o[2], o[3], o[4], w)
      [] o[1] = "un" -> UnOk(u, v, w)
      [] o[1] = "ct" -> CtOk(Pats[o[2] + 1], Pats[o[3] + 1], w)
      [] o[1] = "ctf" -> w = [i \in 1..3 |-> RoundD(Froms[o[2] + 1])]
      [] o[1] = "limits" -> w = Limits
      [] OTHER -> w = <<>>
Rejects(s, e) ==
    LET o == e.op IN
    IF o[1] \in {"crash", "hang"} THEN {<<"N05", o[1]>>}
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(~Good(s, o, e.out), {<<"N05", o[1]>>})
Notable == {0, 32768, 15360, 64511, 31743, 1, 1023, 1024, Inf, 64512, 32256, 13653}
GenOps(s) ==
    IF s = Init0 THEN {<<"row", r>> : r \in 0..1023} \cup {<<"ctf", i>> : i \in 0..30} \cup {<<"limits">>} \cup {<<"nan", q, 2^b>> : q \in {0, 1}, b \in 0..22}
                      \cup {<<"set", u, v>> : u \in Notable, v \in Notable}
    ELSE {<<"arith">>, <<"exact">>, <<"un">>, <<"int", 1>>, <<"int", -128>>, <<"int", 65536>>}
GenBound(s) == TRUE
=============================================================================
