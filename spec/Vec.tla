-------------------------------- MODULE Vec --------------------------------
(* muu::vector: a fixed number of scalars with the arithmetic of the mathematical vector. State: the scalar type and the
   dimension, and two vectors with integer components. Every operation leaves the vectors it only reads alone. Results of
   operations on floating-point types are exact where they are integers; quotients, roots and angles are compared within the
   precision they are logged in. Clause V01.                                                                          *)
EXTENDS Integers, Sequences, TLC
Reject(why) == {<<"V01", why>>}
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
R == 1..2
\* scalar types: 0 int, 1 short, 2 unsigned char, 3 float, 4 double, 5 half
Float(k) == k >= 3
Wrap(k, x) == IF k = 1 THEN ((x + 32768) % 65536) - 32768 ELSE IF k = 2 THEN x % 256 ELSE x
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
TDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))            \* truncating
TMod(a, b) == a - b * TDiv(a, b)
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] OTHER -> 16
RECURSIVE SumTo(_, _), ProdTo(_, _, _)
SumTo(v, i) == IF i = 0 THEN 0 ELSE v[i] + SumTo(v, i - 1)
ProdTo(k, v, i) == IF i = 0 THEN 1 ELSE Wrap(k, v[i] * ProdTo(k, v, i - 1))
Sum(v) == SumTo(v, Len(v))
Prod(k, v) == ProdTo(k, v, Len(v))
Map2(f(_, _), a, b) == [i \in 1..Len(a) |-> f(a[i], b[i])]
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Axis(i) == [j \in 1..3 |-> B(j = i)]
Minus(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Zeros(n) == [i \in 1..n |-> 0]
NoZero(v) == \A i \in 1..Len(v) : v[i] # 0

Init0 == [k |-> 0, n |-> 3, r |-> <<Zeros(3), Zeros(3)>>]
Vals(o, from, n) == [i \in 1..n |-> o[from + i - 1]]
Pad(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]
Cast(k, v) == [i \in 1..Len(v) |-> Wrap(k, v[i])]
Next1(s, o) ==
    CASE o[1] = "kind" -> [k |-> o[2], n |-> o[3], r |-> <<Zeros(o[3]), Zeros(o[3])>>]
      \* construction from fewer scalars than there are components: the others are zero
      [] o[1] = "set"  -> [s EXCEPT !.r[o[2]] = Cast(s.k, Pad(Vals(o, 5, o[4]), s.n))]     \* register, how, count, values
      [] o[1] = "fill" -> [s EXCEPT !.r[o[2]] = [i \in 1..s.n |-> Wrap(s.k, o[3])]]
      [] o[1] = "put"  -> [s EXCEPT !.r[o[2]][o[4] + 1] = Wrap(s.k, o[5])]                  \* register, how, index, value
      [] o[1] = "copy" -> [s EXCEPT !.r[o[2]] = s.r[o[3]]]
      [] OTHER -> s
Step(s, e) == Next1(s, e.op)

\* ----- results. An outcome is a sequence of numbers, or a predicate on what was observed -----
Arith(k, op, a, b) == Wrap(k, CASE op = 0 -> a + b [] op = 1 -> a - b [] op = 2 -> a * b [] op = 3 -> TDiv(a, b) [] OTHER -> TMod(a, b))
\* q logged in 1/4096: it is num/den up to the rounding of the type
Quot(k, num, den, q) == Abs(4096 * num - q * den) <= Abs(den) * (IF k = 5 THEN 66 ELSE 1)
\* a root logged in 1/64
Root(k, sq, q) == q >= 0 /\ Abs(q * q - 4096 * sq) <= (IF k = 5 THEN 8 ELSE 2) * q + (IF k = 5 THEN 200 ELSE 1)
\* half has 11 significant bits: integers are exact up to 2048
Exact(k, v) == k # 5 \/ \A i \in 1..Len(v) : Abs(v[i]) <= 2048
Same(k, want, got) == Len(want) = Len(got) /\ (Exact(k, want) => got = want)
Ops(s, o) == LET a == s.r[1]  b == s.r[2] IN IF o[3] = 2 THEN <<a, a>> ELSE <<a, b>>    \* form 2: both operands the same object
Swz(v, ix) == [i \in 1..Len(ix) |-> v[ix[i] + 1]]
Good(s, o, w) ==
    LET k == s.k  n == s.n  a == s.r[1]  b == s.r[2] IN
    CASE o[1] = "bin" ->      \* operator, form
           LET x == Ops(s, o)[1]  y == Ops(s, o)[2] IN
           IF o[2] >= 3 /\ ~NoZero(y) THEN w = <<>>
           ELSE IF o[2] = 3 /\ Float(k) THEN Len(w) = n /\ \A i \in 1..n : Quot(k, x[i], y[i], w[i])
           ELSE Same(k, [i \in 1..n |-> Arith(k, o[2], x[i], y[i])], w)
      [] o[1] = "sc" ->       \* operator, form, scalar
           IF o[2] >= 3 /\ o[4] = 0 THEN w = <<>>
           ELSE IF o[2] = 3 /\ Float(k) THEN Len(w) = n /\ \A i \in 1..n : Quot(k, a[i], o[4], w[i])
           ELSE Same(k, [i \in 1..n |-> Arith(k, o[2], a[i], o[4])], w)
      [] o[1] = "own" ->      \* operator, element: scaled in place by an element of its own
           LET t == a[(o[3] % n) + 1] IN
           IF o[2] >= 3 /\ t = 0 THEN w = <<>>
           ELSE IF o[2] = 3 /\ Float(k) THEN Len(w) = n /\ \A i \in 1..n : Quot(k, a[i], t, w[i])
           ELSE Same(k, [i \in 1..n |-> Arith(k, o[2], a[i], t)], w)
      [] o[1] = "shift" ->    \* 0 left 1 right, form, count
           IF Float(k) THEN w = <<>>
           ELSE w = [i \in 1..n |-> Wrap(k, IF o[2] = 0 THEN a[i] * Pow2(o[4]) ELSE a[i] \div Pow2(o[4]))]
      [] o[1] = "neg" -> IF k = 2 THEN w = <<>> ELSE w = [i \in 1..n |-> Wrap(k, -a[i])]
      [] o[1] = "abs" -> w = [i \in 1..n |-> Abs(a[i])]
      [] o[1] = "sum" -> Same(k, <<Wrap(k, Sum(a))>>, w)
      [] o[1] = "product" -> Same(k, <<Prod(k, a)>>, w)
      [] o[1] = "dot" -> LET x == Ops(s, o) IN Same(k, <<Dot(x[1], x[2])>>, w)
      [] o[1] = "dota" -> w = <<a[o[2] + 1], a[o[2] + 1]>>            \* with an axis
      [] o[1] = "cross" -> IF n # 3 \/ k = 2 THEN w = <<>> ELSE LET x == Ops(s, o) IN Same(k, Cross(x[1], x[2]), w)
      [] o[1] = "crossa" -> IF n # 3 \/ k = 2 THEN w = <<>> ELSE w = Cross(a, Axis(o[2] + 1)) \o Cross(Axis(o[2] + 1), a)
      [] o[1] = "orth" ->     \* some vector orthogonal to this one, zero only for zero
           IF n # 3 \/ k = 2 THEN w = <<>> ELSE Len(w) = 3 /\ Dot(a, w) = 0 /\ (a # Zeros(3) => w # Zeros(3))
      [] o[1] = "lensq" -> Same(k, <<Dot(a, a)>>, w)
      [] o[1] = "len" -> Len(w) = 1 /\ (n = 1 \/ Root(k, Dot(a, a), w[1]))
      [] o[1] = "dissq" -> Same(k, <<Dot(Minus(a, b), Minus(a, b))>>, w)
      [] o[1] = "dist" -> Len(w) = 1 /\ Root(k, Dot(Minus(a, b), Minus(a, b)), w[1])
      \* the direction, logged in 1/256, and the length in 1/64; for zero vectors and single components left open
      [] o[1] \in {"norm", "dirto"} ->
           LET v == IF o[1] = "norm" THEN a ELSE Minus(b, a) IN
           IF (o[1] = "norm" /\ ~Float(k)) \/ n = 1 \/ (o[1] = "dirto" /\ n \notin {2, 3}) THEN w = <<>>
           ELSE IF v = Zeros(n) THEN TRUE
           ELSE /\ Len(w) = n + 1 /\ Root(k, Dot(v, v), w[n + 1])
                /\ \A i \in 1..n : /\ w[i] = 0 \/ Sgn(w[i]) = Sgn(v[i])
                                   /\ Dot(v, v) <= 8000 => Abs(w[i] * w[i] * Dot(v, v) - 65536 * v[i] * v[i]) <= (3 * Abs(w[i]) + 2) * Dot(v, v)
      [] o[1] = "normed" ->   \* whether its length is one
           w = <<B(IF n = 1 THEN a[1] \in {1} ELSE Dot(a, a) = 1)>> \/ (n = 1 /\ a[1] = -1)
      [] o[1] = "angle" ->    \* logged in 1/1000
           IF n \notin {2, 3} THEN w = <<>>
           ELSE IF Max2(Dot(a, a), Dot(b, b)) > 10000 THEN Len(w) = 1
           ELSE LET d == Dot(a, b)  p == Dot(a, a) * Dot(b, b) IN
                /\ Len(w) = 1
                /\ p = 0 => w[1] = 0
                /\ p # 0 /\ d = 0 => Abs(w[1] - 1571) <= 1 + B(k = 5) * 2
                /\ p # 0 /\ d > 0 => w[1] \in 0..1571
                /\ p # 0 /\ d < 0 => w[1] \in 1571..3143
                /\ p # 0 /\ d * d = p => Abs(w[1] - (IF d > 0 THEN 0 ELSE 3142)) <= 3
                /\ p # 0 /\ 2 * d * d = p => Abs(w[1] - (IF d > 0 THEN 785 ELSE 2356)) <= 3
      [] o[1] = "min" -> w = Map2(Min2, a, b) \o [i \in 1..n |-> Min2(Min2(a[i], b[i]), Wrap(k, o[2]))]
      [] o[1] = "max" -> w = Map2(Max2, a, b) \o [i \in 1..n |-> Max2(Max2(a[i], b[i]), Wrap(k, o[2]))]
      [] o[1] = "clamp" -> w = [i \in 1..n |-> Max2(o[2], Min2(a[i], o[3]))]       \* between two scalars, low <= high
      [] o[1] = "lerp" ->     \* by quarters
           IF Float(k) THEN Len(w) = n /\ \A i \in 1..n : Quot(k, (4 - o[2]) * a[i] + o[2] * b[i], 4, w[i])
           ELSE Len(w) = n /\ \A i \in 1..n : w[i] = TDiv((4 - o[2]) * a[i] + o[2] * b[i], 4)
      [] o[1] = "round" ->    \* ceil and floor of this divided by two
           IF ~Float(k) THEN w = <<>> ELSE w = [i \in 1..n |-> -((-a[i]) \div 2)] \o [i \in 1..n |-> a[i] \div 2]
      [] o[1] = "cmp" ->      \* ==, !=, with the vectors converted to another scalar type, approximately equal, zero
           w = <<B(a = b), B(a # b), B(a = b), B(a # b), B(a = b), B(a = Zeros(n)), B(a = Zeros(n)), 0>>
      [] o[1] = "odd" ->      \* with a component that is not a number (0) or infinite
           IF ~Float(k) THEN w = <<>> ELSE w = <<1, B(o[3] # 0), 0, 0, 0>>
      [] o[1] = "const" ->    \* computed at compile time, for 1,2,..,n and n,..,2,1
           LET up == [i \in 1..n |-> i]  down == [i \in 1..n |-> n + 1 - i] IN
           /\ Len(w) = 3 * n + 4
           /\ SubSeq(w, 1, 3 * n + 3) = up \o [i \in 1..n |-> 2 * n + 2] \o [i \in 1..n |-> Max2(i, n + 1 - i)]
                                          \o <<Sum(up), Dot(up, down), Dot(up, up)>>
           /\ Root(k, Dot(up, up), w[3 * n + 4])
      [] o[1] = "swz" ->
           w = Swz(a, [i \in 1..n |-> n - i]) \o <<a[n], a[1], a[n]>>
               \o (IF n >= 2 THEN <<a[1], a[2], a[2], a[1]>> ELSE <<>>)
               \o (IF n >= 3 THEN <<a[1], a[3], a[1], a[2], a[3], a[1], a[2], a[3], 1, a[1], a[2], a[3], 0>> ELSE <<>>)
      [] o[1] = "acc" ->      \* accumulated: this, the other, this; the sums are wider than the scalars
           w = Map2(Min2, a, b) \o Map2(Max2, a, b) \o [i \in 1..n |-> 2 * a[i] + b[i]]
      [] OTHER -> w = <<>>
\* every event ends with both vectors, read through one of the accessors
Rejects(s, e) ==
    LET o == e.op  t == Next1(s, o)  m == Len(e.out) - 2 * t.n IN
    IF o[1] \in {"crash", "hang"} THEN Reject(o[1])
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(m < 0 \/ SubSeq(e.out, m + 1, Len(e.out)) # t.r[1] \o t.r[2], Reject("wrong components"))
         \cup If(m >= 0 /\ ~Good(s, o, SubSeq(e.out, 1, m)), Reject("wrong result"))
GenKinds == {<<"kind", k, n>> : k \in 0..5, n \in 1..5}
Queries(s) ==
    {<<"bin", op, f>> : op \in 0..4, f \in 0..2} \cup {<<"own", op, i>> : op \in 2..4, i \in 0..(s.n - 1)} \cup {<<"sc", op, f, v>> : op \in 2..4, f \in 0..2, v \in {3}}
    \cup {<<"shift", d, f, 2>> : d \in 0..1, f \in 0..1}
    \cup {<<x>> : x \in {"neg", "abs", "sum", "product", "orth", "lensq", "len", "dissq", "dist", "norm", "dirto", "normed", "angle", "round",
                         "cmp", "swz", "acc", "const"}} \cup {<<"odd", s.n - 1, x>> : x \in 0..2}
    \cup {<<"dot", 0, f>> : f \in {0, 2}} \cup {<<"dota", s.n - 1>>} \cup {<<"cross", 0, f>> : f \in {0, 2}} \cup {<<"crossa", i>> : i \in 0..2}
    \cup {<<"min", 4>>, <<"max", 4>>, <<"clamp", 2, 6>>, <<"lerp", 1>>}
Some(n, x) == SubSeq(<<x, 7 - x, x + 3, 1, 9 - x>>, 1, n)
GenOps(s) ==
    GenKinds
    \cup {<<"set", r, how, s.n>> \o Some(s.n, 2 * r) : r \in R, how \in 0..8}
    \cup {<<"set", r, how, s.n - 1>> \o Some(s.n - 1, 2 * r) : r \in {1}, how \in 0..8}
    \cup {<<"fill", 2, 5>>, <<"put", 1, s.n % 4, s.n - 1, 6>>, <<"copy", 1, 2>>} \cup Queries(s)
GenBound(s) == TRUE
=============================================================================
