-------------------------------- MODULE Math --------------------------------
(* muu's elementary functions (math.h, core_utils.h) for float, double, long double, float128_t and half, called at run
   time, during compilation and with integer arguments. State: the type and three numbers a, b, c; a query reads them as
   fractions (a/16, a/64, ...). Results are fixed-point numbers with FX units to one; the trigonometric functions are
   computed here in that arithmetic, from their series. Clause N04.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x < y THEN y ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
FX == 16384
PiF == 51472        \* round(pi * FX)
TwoPi10 == 1029437  \* round(20 * pi * FX)
\* x divided by y > 0, rounded to nearest
Rnd(x, y) == ((2 * x) + y) \div (2 * y)
Mulf(x, y) == Rnd(x * y, FX)
RECURSIVE Series(_, _, _, _)
\* term - term*x^2/((n+1)(n+2)) + ...
Series(term, x2, n, sum) == IF term = 0 \/ n > 14 THEN sum ELSE
    LET t == 0 - Rnd(Mulf(term, x2), (n + 1) * (n + 2)) IN Series(t, x2, n + 2, sum + t)
Sin0(x) == Series(x, Mulf(x, x), 1, x)        \* 0 <= x <= pi/4
Cos0(x) == Series(FX, Mulf(x, x), 0, FX)
Wrap(x) == x - Rnd(((x * 10) \div TwoPi10) * TwoPi10, 10)     \* into [0, 2pi)
\* x is small enough for the products
RECURSIVE SinR(_)
SinR(x) == IF x > PiF THEN 0 - SinR(x - PiF)
           ELSE IF 2 * x > PiF THEN SinR(PiF - x)
           ELSE IF 4 * x > PiF THEN Cos0(Hi(0, (PiF \div 2) - x)) ELSE Sin0(Hi(0, x))
SinF(x) == SinR(Wrap(x))
CosF(x) == SinF(x + (PiF \div 2))
\* the allowance for a result of magnitude v (in FX units): the resolution of the type plus that of this arithmetic
Slack(k, v) == 12 + (IF k = 5 THEN (Abs(v) \div 512) + 8 ELSE Abs(v) \div 65536)
About(k, v, w, more) == Abs(v - w) <= Slack(k, w) + more
Close == 64         \* how far run time and compile time may be apart, in units of the type's precision
\* one function's four numbers: at run time, during compilation, from an integer, distance of the first two
Four(w, i) == SubSeq(w, (4 * i) + 1, (4 * i) + 4)
Each(q, Ok(_)) == Ok(q[1]) /\ Ok(q[2]) /\ Ok(q[3]) /\ q[4] <= Close
TanOk(k, v, si, co, more) ==   \* v*cos = sin; not judged near the poles
    IF Abs(co) < FX \div 3 THEN Sign(v) = Sign(si) * Sign(co) \/ Abs(co) < 40 + more
    ELSE Abs(Mulf(v, co) - si) <= (2 * Slack(k, v)) + (4 * more)
\* more: how far the argument itself may be off
TrigOk(k, x, w, more) == LET si == SinF(x)  co == CosF(x) IN
    /\ Len(w) \in {8, 12}
    /\ Each(Four(w, 0), LAMBDA v : About(k, v, si, more))
    /\ Each(Four(w, 1), LAMBDA v : About(k, v, co, more))
    /\ Len(w) = 12 => Each(Four(w, 2), LAMBDA v : TanOk(k, v, si, co, more))
TurnX(b) == Rnd(b * TwoPi10, 80)
TurnMore(k, b) == IF k = 5 THEN Abs(TurnX(b)) \div 1024 ELSE 0
AsinOk(k, a, r) == /\ Abs(r) <= (PiF \div 2) + Slack(k, PiF) /\ Abs(SinF(r) - (a * 128)) <= 2 * Slack(k, r) /\ Sign(r) = Sign(a)
AcosOk(k, a, r) == /\ r >= 0 /\ r <= PiF + Slack(k, PiF) /\ Abs(CosF(r) - (a * 128)) <= 2 * Slack(k, r)
                   /\ (a > 0 => 2 * r < PiF) /\ (a < 0 => 2 * r > PiF)
\* r is the angle of (x, y), up to a factor m >= |x|, |y| small
Angle2(k, y, x, r) ==
    IF x = 0 /\ y = 0 THEN r = 0
    ELSE /\ Abs((SinF(r) * x) - (CosF(r) * y)) <= (2 * Slack(k, r)) * (Abs(x) + Abs(y))
         /\ (SinF(r) * y) + (CosF(r) * x) > 0
         /\ Abs(r) <= PiF + Slack(k, PiF)
AtanOk(k, a, r) == Angle2(k, a, 16, r)
\* r = sqrt(a/64) in units of 1/1024: r^2 = a * 2^14
SqrtOk(k, a, r) == IF a < 0 THEN r = -777777 ELSE LET e == 1 + (IF k = 5 THEN (r \div 1024) + 1 ELSE 0) IN
    /\ r >= 0 /\ (IF r > e THEN (r - e) * (r - e) <= a * 16384 ELSE TRUE) /\ a * 16384 <= (r + e) * (r + e)
Floor64(a) == a \div 64
Ceil64(a) == 0 - ((0 - a) \div 64)
RoundOut(a) == <<Floor64(a), Floor64(a), Ceil64(a), Ceil64(a), Abs(a), Abs(a), a, a>> \o [i \in 1..7 |-> Abs(a)]
LerpOut(a, b, c) == (a * (16 - c)) + (b * c)
LerpOk(k, a, b, c, w) ==
    LET v == LerpOut(a, b, c)  wx == a % 16 = 0  wy == b % 16 = 0  wt == c % 16 = 0
        inexact == k = 5 /\ Abs(v) > 2048 IN
    /\ Len(w) = 7
    /\ w[1] = v \/ inexact
    /\ w[2] = v \/ (inexact)
    /\ w[3] = v \/ inexact
    /\ w[4] = v \/ inexact
    /\ w[5] = v \/ (inexact /\ ~(wx /\ wy /\ wt))
    /\ w[6] = v
    /\ w[7] = (IF c \in -16..32 THEN LerpOut(-20, 56, c) ELSE 888888)
\* r is x up to full turns, and in [low, low + 2pi)
NormOk(k, x, low, r) == LET d == Wrap(r - x)  t == Slack(k, PiF) + (Abs(x) \div (IF k = 5 THEN 1024 ELSE 32768)) IN
    /\ r >= low - 1 /\ r <= low + (2 * PiF) + (IF k = 5 THEN 40 ELSE 1)
    /\ (d <= t \/ d >= (2 * PiF) - t)
AngleOk(k, a, b, w) ==
    /\ Len(w) = 16
    /\ Each(Four(w, 0), LAMBDA v : NormOk(k, a * 1024, 0, v))
    /\ Each(Four(w, 1), LAMBDA v : NormOk(k, a * 1024, 0 - PiF, v))
    /\ Each(Four(w, 2), LAMBDA v : NormOk(k, TurnX(b), 0, v))
    /\ Each(Four(w, 3), LAMBDA v : NormOk(k, TurnX(b), 0 - PiF, v))
NearOut(a, b, c) == LET eq == B(a = b)  z == B(a = 0) IN
    <<B(Abs(a - b) < c), B(Abs(a - b) < c), B(Abs(a) < c)>> \o [i \in 1..8 |-> eq] \o <<z, z, z>>
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN Abs(x) ELSE Gcd(y, x % Abs(y))
Lcm(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE Abs(x) * (Abs(y) \div Gcd(x, y))
NumOut(a, b, c) == LET g == Gcd(Gcd(a, b), c)  l == Lcm(Lcm(a, b), c) IN
    <<Gcd(a, b), g, Gcd(6 * g, 15), Gcd(6 * g, 3), Lcm(a, b), l, Lcm(l, 6), Lcm(l, 20)>>
SetMin(q) == CHOOSE x \in q : \A y \in q : x <= y
SetMax(q) == CHOOSE x \in q : \A y \in q : x >= y
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF hi < x THEN hi ELSE x
PickOut(a, b, c) == LET s3 == {a, b, c}  cl == Clamp(a, Lo(b, c), Hi(b, c)) IN
    <<Lo(a, b), Hi(a, b), SetMin(s3), SetMax(s3), SetMin(s3 \cup {1}), SetMax(s3 \cup {-2}), SetMin(s3 \cup {1, -2}), SetMax(s3 \cup {1, -2}),
      SetMin(s3 \cup {1, -2}), SetMax(s3 \cup {1, -2}), SetMin(s3), SetMax(s3), cl, cl>>
\* which of the ten types are unsigned: they hold the absolute value
Unsigned == {2, 5, 7, 10}
Held(t, x) == IF t \in Unsigned THEN Abs(x) ELSE x
WithinOut(a, b, c) == [i \in 1..100 |-> LET t == ((i - 1) \div 10) + 1  u == ((i - 1) % 10) + 1 IN
    B(Held(u, b) <= Held(t, a) /\ Held(t, a) <= Held(u, c))]
ShareOut(a, b) == LET t == Abs(a)  n == 1 + (Abs(b) % 9) IN
    [i \in 1..(5 * n) |-> (t \div n) + B((i - 1) % n < t % n)]
Strange(v) == v \in 1..4
OddOut(x, y, z) == <<B(Strange(x)), B(Strange(x)), B(Strange(x) \/ Strange(y)), B(Strange(x) \/ Strange(y) \/ Strange(z)),
                     B(Strange(x) \/ Strange(y)), B(Strange(x) \/ Strange(y) \/ Strange(z)), 0>>
Init0 == [k |-> 1, a |-> 0, b |-> 0, c |-> 0]
Next1(s, o) == CASE o[1] = "kind" -> [s EXCEPT !.k = o[2]]
                 [] o[1] = "set" -> [s EXCEPT !.a = o[2], !.b = o[3], !.c = o[4]]
                 [] OTHER -> s
Step(s, e) == Next1(s, e.op)
Good(s, o, w) ==
    LET k == s.k  a == s.a  b == s.b  c == s.c IN
    CASE o[1] = "trig" -> Len(w) = 12 /\ TrigOk(k, a * 1024, w, 0)
      [] o[1] = "turn" -> Len(w) = (IF (b % 4) = 2 THEN 8 ELSE 12) /\ TrigOk(k, TurnX(b), w, TurnMore(k, b))
      [] o[1] = "arc"  -> IF Abs(a) > 128 THEN w = <<>> ELSE
                          Len(w) = 8 /\ Each(Four(w, 0), LAMBDA v : AsinOk(k, a, v)) /\ Each(Four(w, 1), LAMBDA v : AcosOk(k, a, v))
      [] o[1] = "atan" -> Len(w) = 4 /\ Each(Four(w, 0), LAMBDA v : AtanOk(k, a, v))
      [] o[1] = "atan2" -> Len(w) = 6 /\ Each(Four(w, 0), LAMBDA v : Angle2(k, a, b, v)) /\ Angle2(k, a, b, w[5]) /\ Angle2(k, a, b, w[6])
      [] o[1] = "sqrt" -> Len(w) = (IF a < 0 THEN 4 ELSE 8)
                          /\ \A i \in 1..3 : SqrtOk(k, a, w[i])
                          /\ a >= 0 => w[4] <= Close /\ w[8] <= Close /\ \A j \in 5..7 : SqrtOk(k, a, w[j])
      [] o[1] = "root" -> w = <<1024, 1024, 1024>>
      [] o[1] = "round" -> w = RoundOut(a)
      [] o[1] = "lerp" -> LerpOk(k, a, b, c, w)
      [] o[1] = "angle" -> AngleOk(k, a, b, w)
      [] o[1] = "near" -> w = NearOut(a, b, c)
      [] o[1] = "num" -> w = NumOut(a, b, c)
      \* which of two equal objects min or max hands back is left open, but it is one of them
      [] o[1] = "pick" -> Len(w) = Len(PickOut(a, b, c)) + 5 /\ SubSeq(w, 1, Len(PickOut(a, b, c))) = PickOut(a, b, c)
                          /\ (\A i \in 1..3 : w[Len(PickOut(a, b, c)) + i] \in {0, 1}) /\ w[Len(w) - 1] = 1 /\ w[Len(w)] = 1
      [] o[1] = "within" -> w = WithinOut(a, b, c)
      [] o[1] = "share" -> w = ShareOut(a, b)
      [] o[1] = "odd" -> w = OddOut(o[2], o[3], o[4])
      [] OTHER -> w = <<>>
Rejects(s, e) ==
    LET o == e.op IN
    IF o[1] \in {"crash", "hang"} THEN {<<"N04", o[1]>>}
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(~Good(Next1(s, o), o, e.out), {<<"N04", o[1]>>})
Asks == {<<q>> : q \in {"trig", "turn", "arc", "atan", "atan2", "sqrt", "round", "lerp", "angle", "num", "pick", "within", "share"}}
GenOps(s) ==
    (IF s = Init0 THEN {<<"kind", k>> : k \in 2..5} ELSE {})
    \cup (IF s.a = 0 /\ s.b = 0 /\ s.c = 0 THEN {<<"set", x[1], x[2], x[3]>> :
             x \in {<<1, 2, 3>>, <<-5, 4, 1>>, <<-128, -3, 8>>, <<128, 4, -16>>, <<64, -7, 32>>, <<0, 5, 0>>, <<-8, 0, 16>>, <<100, -16, 5>>, <<-30, 13, -20>>}}
          ELSE Asks \cup {<<"odd", x, y, 0>> : x \in 0..9, y \in {0, 1}} \cup {<<"root", q>> : q \in {-60, -33, -5, 0, 4, 29, 60}} \cup (IF s.c >= 0 THEN {<<"near">>} ELSE {}))
GenBound(s) == TRUE
=============================================================================
