------------------------------- MODULE Consts -------------------------------
(* muu::constants: the named irrational numbers and ratios, the limits and special values, the small integers and the
   characters, for every type that has them. The model computes pi (Machin), e (its series) and phi (Newton) in fixed-point
   arithmetic with 168 fractional bits and checks each constant against the relation its name states: it is the value of its
   type nearest to that number (half and float128_t: one of the two neighbours). There is no state. Clause N06.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
\* numbers: 16 limbs base 4096, most significant first; two of them before the point
W == 16
Base == 4096
Zero == [i \in 1..W |-> 0]
Num(n) == [i \in 1..W |-> IF i = 1 THEN n \div Base ELSE IF i = 2 THEN n % Base ELSE 0]
\* sums in d[1..W] (and d[W+1] as the rest), carried to the left
RECURSIVE Carry(_, _, _)
Carry(d, i, c) == IF i = 0 THEN <<>> ELSE LET v == d[i] + c IN Append(Carry(d, i - 1, v \div Base), v % Base)
Plus(x, y) == Carry([i \in 1..W |-> x[i] + y[i]], W, 0)
Minus(x, y) == Carry([i \in 1..W |-> x[i] - y[i]], W, 0)      \* x >= y
MulS(x, n) == Carry([i \in 1..W |-> x[i] * n], W, 0)
RECURSIVE SumProd(_, _, _, _)
SumProd(x, y, k, i) == IF i > W \/ (k + 2) - i < 1 THEN 0 ELSE (IF (k + 2) - i > W THEN 0 ELSE x[i] * y[(k + 2) - i]) + SumProd(x, y, k, i + 1)
Mul(x, y) == LET d == [k \in 1..W + 1 |-> SumProd(x, y, k, 1)] IN SubSeq(Carry(d, W + 1, 0), 1, W)
RECURSIVE DivAt(_, _, _, _)
DivAt(x, n, i, r) == IF i > W THEN <<>> ELSE LET v == (r * Base) + x[i] IN <<v \div n>> \o DivAt(x, n, i + 1, v % n)
DivS(x, n) == DivAt(x, n, 1, 0)
RECURSIVE LessAt(_, _, _)
LessAt(x, y, i) == IF i > W THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LessAt(x, y, i + 1)
Less(x, y) == LessAt(x, y, 1)
Dist(x, y) == IF Less(x, y) THEN Minus(y, x) ELSE Minus(x, y)
RECURSIVE AtanAt(_, _, _, _, _)
\* sum of +-t/(2k+1), t = n^-(2k+1); returns <<positive terms, negative terms>>
AtanAt(t, n2, k, pos, neg) == IF t = Zero THEN Minus(pos, neg) ELSE
    LET q == DivS(t, (2 * k) + 1) IN
    AtanAt(DivS(t, n2), n2, k + 1, IF k % 2 = 0 THEN Plus(pos, q) ELSE pos, IF k % 2 = 1 THEN Plus(neg, q) ELSE neg)
Atan1(n) == AtanAt(DivS(Num(1), n), n * n, 0, Zero, Zero)
Pi == Minus(MulS(Atan1(5), 16), MulS(Atan1(239), 4))
RECURSIVE ExpAt(_, _, _)
ExpAt(t, n, sum) == IF t = Zero THEN sum ELSE ExpAt(DivS(t, n), n + 1, Plus(sum, t))
Euler == ExpAt(Num(1), 1, Zero)
RECURSIVE Newton(_, _)
\* y -> y * (3 - 5 y^2) / 2 tends to 1 / sqrt(5)
Newton(y, n) == IF n = 0 THEN y ELSE Newton(DivS(Mul(y, Minus(Num(3), MulS(Mul(y, y), 5))), 2), n - 1)
Phi == DivS(Plus(Num(1), MulS(Newton(DivS(Num(447), 1000), 8), 5)), 2)
Bases == <<Num(1), Pi, Euler, Phi>>
\* 2^x for x >= -168
Pow2(x) == LET i == 2 - (x \div 12) IN [j \in 1..W |-> IF j = i THEN 2^(x % 12) ELSE 0]
RECURSIVE TopAt(_, _)
TopAt(x, i) == IF i > W THEN -1000 ELSE IF x[i] = 0 THEN TopAt(x, i + 1)
               ELSE LET b == CHOOSE n \in 0..11 : 2^n <= x[i] /\ x[i] < 2^(n + 1) IN (12 * (2 - i)) + b
Top(x) == TopAt(x, 1)           \* floor(log2(x))
Prec == <<24, 53, 64, 113, 11, 11>>
Nearest == {1, 2, 3, 5}
\* how far the constant c of type k may be from its number
Off(k, c) == Pow2((Top(c) - Prec[k]) + (IF k \in Nearest THEN 0 ELSE 1))
Eps == Pow2(-156)
Within(x, y, t) == ~Less(Plus(t, Eps), Dist(x, y))
\* what the names say: <<1, p, q, X>>: p*X/q; <<2, p, q, X>>: p/(q*X); <<3, p, 1, X>>: sqrt(p*X); <<4, p, 1, X>>: 1/sqrt(p*X);
\* X is 1, pi, e or phi. The last five: 1/10, 1/100, 1/1000, radians per degree, degrees per radian
Named == <<
    <<1, 1, 2, 1>>, <<1, 1, 3, 1>>, <<1, 1, 4, 1>>, <<1, 1, 5, 1>>, <<1, 1, 6, 1>>, <<1, 1, 7, 1>>, <<1, 1, 8, 1>>, <<3, 2, 1, 1>>, <<4, 2, 1, 1>>,
    <<1, 2, 3, 1>>, <<1, 2, 5, 1>>, <<1, 2, 7, 1>>, <<3, 3, 1, 1>>, <<4, 3, 1, 1>>, <<1, 3, 2, 1>>, <<1, 3, 4, 1>>, <<1, 3, 5, 1>>, <<1, 3, 7, 1>>,
    <<1, 3, 8, 1>>, <<3, 4, 1, 1>>, <<1, 4, 3, 1>>, <<1, 4, 5, 1>>, <<1, 4, 7, 1>>, <<1, 1, 1, 2>>, <<2, 1, 1, 2>>, <<3, 1, 1, 2>>, <<4, 1, 1, 2>>,
    <<1, 1, 2, 2>>, <<1, 1, 3, 2>>, <<1, 1, 4, 2>>, <<1, 1, 5, 2>>, <<1, 1, 6, 2>>, <<1, 1, 7, 2>>, <<1, 1, 8, 2>>, <<2, 2, 1, 2>>, <<2, 3, 1, 2>>,
    <<2, 4, 1, 2>>, <<2, 5, 1, 2>>, <<2, 6, 1, 2>>, <<2, 7, 1, 2>>, <<2, 8, 1, 2>>, <<1, 2, 1, 2>>, <<2, 1, 2, 2>>, <<3, 2, 1, 2>>, <<4, 2, 1, 2>>,
    <<1, 2, 3, 2>>, <<1, 2, 5, 2>>, <<1, 2, 7, 2>>, <<2, 3, 2, 2>>, <<2, 5, 2, 2>>, <<2, 7, 2, 2>>, <<1, 3, 1, 2>>, <<2, 1, 3, 2>>, <<3, 3, 1, 2>>,
    <<4, 3, 1, 2>>, <<1, 3, 2, 2>>, <<1, 3, 4, 2>>, <<1, 3, 5, 2>>, <<1, 3, 7, 2>>, <<1, 3, 8, 2>>, <<2, 2, 3, 2>>, <<2, 4, 3, 2>>, <<2, 5, 3, 2>>,
    <<2, 7, 3, 2>>, <<2, 8, 3, 2>>, <<1, 1, 1, 3>>, <<2, 1, 1, 3>>, <<3, 1, 1, 3>>, <<4, 1, 1, 3>>, <<1, 1, 2, 3>>, <<1, 1, 3, 3>>, <<1, 1, 4, 3>>,
    <<1, 1, 5, 3>>, <<1, 1, 6, 3>>, <<1, 1, 7, 3>>, <<1, 1, 8, 3>>, <<2, 2, 1, 3>>, <<2, 3, 1, 3>>, <<2, 4, 1, 3>>, <<2, 5, 1, 3>>, <<2, 6, 1, 3>>,
    <<2, 7, 1, 3>>, <<2, 8, 1, 3>>, <<1, 1, 1, 4>>, <<2, 1, 1, 4>>, <<3, 1, 1, 4>>, <<4, 1, 1, 4>>, <<1, 1, 2, 4>>, <<1, 1, 3, 4>>, <<1, 1, 4, 4>>,
    <<1, 1, 5, 4>>, <<1, 1, 6, 4>>, <<1, 1, 7, 4>>, <<1, 1, 8, 4>>, <<2, 2, 1, 4>>, <<2, 3, 1, 4>>, <<2, 4, 1, 4>>, <<2, 5, 1, 4>>, <<2, 6, 1, 4>>,
    <<2, 7, 1, 4>>, <<2, 8, 1, 4>>, <<1, 1, 10, 1>>, <<1, 1, 100, 1>>, <<1, 1, 1000, 1>>, <<1, 1, 180, 2>>, <<2, 180, 1, 2>>>>
NamedOk(k, n, c) ==
    LET f == n[1]  p == n[2]  q == n[3]  X == Bases[n[4]]  h == Off(k, c) IN
    /\ Len(c) = W
    /\ Top(c) > -12
    /\ CASE f = 1 -> Within(MulS(c, q), MulS(X, p), MulS(h, q))
         [] f = 2 -> Within(Mul(MulS(c, q), X), Num(p), Mul(MulS(h, q), X))
         [] f = 3 -> Within(Mul(c, c), MulS(X, p), MulS(Mul(c, h), 2))
         [] f = 4 -> Within(Mul(MulS(Mul(c, c), p), X), Num(1), Mul(MulS(Mul(c, h), 2 * p), X))
Decimal == <<6, 15, 18, 33, 3, 3>>
MaxExp == <<128, 1024, 16384, 16384, 16, 16>>
EpsDigits == <<5, 14, 17, 32, 3, 3>>
RECURSIVE Tens(_, _)
Tens(x, n) == IF n = 0 THEN x ELSE Tens(MulS(x, 10), n - 1)
EpsOk(k, c) == Len(c) = W /\ Within(Tens(c, EpsDigits[k]), Num(1), Pow2(IF Prec[k] > 52 THEN -44 ELSE 8 - Prec[k]))
Smalls == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 100>>
LimOk(k, w) ==
    /\ Len(w) = 55
    /\ SubSeq(w, 1, 7) = <<1, 1, 1, 1, 1, 1, 1>>
    /\ SubSeq(w, 8, 11) = <<Prec[k], Decimal[k], MaxExp[k], Prec[k]>>
    /\ SubSeq(w, 12, 23) = Smalls
    /\ EpsOk(k, SubSeq(w, 24, 39)) /\ EpsOk(k, SubSeq(w, 40, 55))
\* 2^b - 1 and 2^b as eight limbs base 65536, least significant first
Ones(b) == [i \in 1..8 |-> IF b >= 16 * i THEN 65535 ELSE IF b <= 16 * (i - 1) THEN 0 ELSE 2^(b - (16 * (i - 1))) - 1]
Bit(b) == [i \in 1..8 |-> IF b \div 16 = i - 1 THEN 2^(b % 16) ELSE 0]
IntTake(bytes, sgn) == <<bytes, sgn>> \o (IF sgn = 1 THEN <<1>> \o Bit((8 * bytes) - 1) ELSE <<0>> \o Ones(0))
                       \o <<0>> \o Ones((8 * bytes) - sgn) \o Smalls
IntTypes == <<<<1, 1>>, <<1, 0>>, <<2, 1>>, <<2, 0>>, <<4, 1>>, <<4, 0>>, <<8, 1>>, <<8, 0>>, <<8, 1>>, <<8, 0>>, <<16, 1>>, <<16, 0>>>>
ChrTypes == <<<<1, 1>>, <<4, 1>>, <<1, 0>>, <<2, 0>>, <<4, 0>>>>
\* backspace, the white space, escape and everything from the space to del, in the order of their codes
Ascii == <<8, 9, 10, 11, 12, 13, 27>> \o [i \in 1..96 |-> i + 31]
Init0 == 0
Step(s, e) == s
Good(o, w) ==
    CASE o[1] \in {"named", "lim"} /\ o[2] = 5 /\ w = <<>> -> TRUE      \* a build without _Float16
      [] o[1] = "named" -> NamedOk(o[2], Named[o[3] + 1], w)
      [] o[1] = "lim" -> LimOk(o[2], w)
      [] o[1] = "int" -> w = IntTake(IntTypes[o[2]][1], IntTypes[o[2]][2])
      [] o[1] = "chr" -> w = IntTake(ChrTypes[o[2]][1], ChrTypes[o[2]][2]) \o Ascii
      [] OTHER -> w = <<>>
Rejects(s, e) ==
    LET o == e.op IN
    IF o[1] \in {"crash", "hang"} THEN {<<"N06", o[1]>>}
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(~Good(o, e.out), {<<"N06", o[1]>>})
GenOps(s) == {<<"named", k, i>> : k \in 1..6, i \in 0..105} \cup {<<"lim", k>> : k \in 1..6}
             \cup {<<"int", t>> : t \in 1..12} \cup {<<"chr", t>> : t \in 1..5}
GenBound(s) == TRUE
=============================================================================
