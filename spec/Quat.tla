-------------------------------- MODULE Quat --------------------------------
(* muu::quaternion, axis_angle and euler_angles: Hamilton's algebra, and the rotations its unit elements stand for. State:
   the scalar type and two quaternions <<s, x, y, z>> of integers. The algebra is exact; for an integer quaternion h the
   unit quaternion h/|h| rotates by the rational matrix M(h)/|h|^2, so rotations, roots and angles are compared with exact
   numbers within the precision they are logged in. Clause V03.                                                        *)
EXTENDS Integers, Sequences, TLC
Reject(why) == {<<"V03", why>>}
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* scalar types: 3 float, 4 double, 5 half
Half(k) == k = 5
RECURSIVE SumTo(_, _)
SumTo(v, i) == IF i = 0 THEN 0 ELSE v[i] + SumTo(v, i - 1)
Sum(v) == SumTo(v, Len(v))
Norm1(v) == Sum([i \in 1..Len(v) |-> Abs(v[i])])
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Mat3(f(_, _)) == [i \in 1..3 |-> [j \in 1..3 |-> f(i, j)]]
Col(M, j) == [i \in 1..3 |-> M[i][j]]
V(q) == <<q[2], q[3], q[4]>>
Neg(q) == [i \in 1..Len(q) |-> -q[i]]
Conj(q) == <<q[1], -q[2], -q[3], -q[4]>>
HMul(p, q) == LET c == Cross(V(p), V(q)) IN
    <<p[1] * q[1] - Dot(V(p), V(q)), p[1] * q[2] + q[1] * p[2] + c[1], p[1] * q[3] + q[1] * p[3] + c[2], p[1] * q[4] + q[1] * p[4] + c[3]>>
RECURSIVE HPow(_, _)
HPow(q, n) == IF n = 0 THEN <<1, 0, 0, 0>> ELSE IF n < 0 THEN HPow(Conj(q), -n) ELSE HMul(q, HPow(q, n - 1))
N2(q) == Dot(q, q)
\* |h|^2 times the matrix of the rotation
RotM(h) == LET s == h[1]  x == h[2]  y == h[3]  z == h[4] IN
    <<<<s * s + x * x - y * y - z * z, 2 * (x * y - s * z), 2 * (x * z + s * y)>>,
      <<2 * (x * y + s * z), s * s - x * x + y * y - z * z, 2 * (y * z - s * x)>>,
      <<2 * (x * z - s * y), 2 * (y * z + s * x), s * s - x * x - y * y + z * z>>>>
Apply(M, v) == [i \in 1..3 |-> Dot(M[i], v)]
\* without normalization: v + 2 s (r x v) + 2 r x (r x v)
Poly(q, v) == LET t == Cross(V(q), v)  u == Cross(V(q), t) IN [i \in 1..3 |-> v[i] + 2 * q[1] * t[i] + 2 * u[i]]
\* in 1/1024: multiples of 30 degrees
Cos30(n) == <<1024, 887, 512, 0, -512, -887, -1024, -887, -512, 0, 512, 887>>[(n % 12) + 1]
Sin30(n) == Cos30(n + 9)
\* 4 sin^2
Four30(n) == <<0, 1, 3, 4, 3, 1>>[(n % 6) + 1]
\* the rotation around an axis with this cosine and sine (1/1024)
Turn(axis, c, s) == CASE axis = 1 -> <<<<1024, 0, 0>>, <<0, c, -s>>, <<0, s, c>>>>
                      [] axis = 2 -> <<<<c, 0, s>>, <<0, 1024, 0>>, <<-s, 0, c>>>>
                      [] OTHER    -> <<<<c, -s, 0>>, <<s, c, 0>>, <<0, 0, 1024>>>>
MulK(M, N) == Mat3(LAMBDA i, j : Dot(M[i], Col(N, j)) \div 1024)
\* yaw to the right around y, then pitch upwards around x, then roll to the right around z (forward is -z)
EulerM(cy, sy, cp, sp, cr, sr) == MulK(MulK(Turn(3, cr, -sr), Turn(1, cp, sp)), Turn(2, cy, -sy))

Init0 == [k |-> 3, r |-> <<<<1, 0, 0, 0>>, <<0, 0, 0, 0>>>>]
Args(o, from, n) == [i \in 1..n |-> o[from + i - 1]]
Next1(s, o) ==
    CASE o[1] = "kind" -> [k |-> o[2], r |-> <<<<1, 0, 0, 0>>, <<0, 0, 0, 0>>>>]
      [] o[1] = "set"  -> [s EXCEPT !.r[o[2]] = Args(o, 4, 4)]                \* register, how, scalars
      [] o[1] = "put"  -> [s EXCEPT !.r[o[2]][o[4] + 1] = o[5]]              \* register, how, index, scalar
      [] o[1] = "copy" -> [s EXCEPT !.r[o[2]] = s.r[o[3]]]
      [] OTHER -> s
Step(s, e) == Next1(s, e.op)

Exact(k, v) == ~Half(k) \/ \A i \in 1..Len(v) : Abs(v[i]) <= 2048
Same(k, want, got) == Len(want) = Len(got) /\ (Exact(k, want) => got = want)
\* q logged in 1/4096: it is num/den up to the rounding of numbers as large as mag
Quot(k, num, den, q, mag) == Abs(4096 * num - q * den) <= den * (IF Half(k) THEN 4 + 10 * mag ELSE 1 + (mag \div 100))
\* w in 1/1024: a unit element along h; the same, or either of h and -h
T(k) == IF Half(k) THEN 4 ELSE 1
UnitLength(k, w) == Abs(Dot(w, w) - 1048576) <= 2200 * 2 * T(k)
Line(k, w, h) == Len(w) = Len(h) /\ UnitLength(k, w)
                 /\ \A i \in 1..Len(h), j \in 1..Len(h) : i < j => Abs(w[i] * h[j] - w[j] * h[i]) <= 2 * T(k) * (Abs(h[i]) + Abs(h[j]))
Along(k, w, h) == Line(k, w, h) /\ Dot(w, h) > 0
\* the same with room for what the computation of w from logged numbers loses
Along4(k, w, h) == Len(w) = Len(h) /\ Abs(Dot(w, w) - 1048576) <= 2048 * 10 * T(k) /\ Dot(w, h) > 0
                   /\ \A i \in 1..Len(h), j \in 1..Len(h) : i < j => Abs(w[i] * h[j] - w[j] * h[i]) <= 8 * T(k) * (Abs(h[i]) + Abs(h[j]))
ShortWay(h) == IF h[1] < 0 THEN Neg(h) ELSE h
MulQ(p, q) == [i \in 1..4 |-> HMul(p, q)[i] \div 1024]
CloseM(k, M, num, den, tol) ==       \* M in 1/1024
    \A i \in 1..3, j \in 1..3 : Abs(M[i][j] * den - 1024 * num[i][j]) <= den * tol
Good(s, o, w) ==
    LET k == s.k  p == s.r[1]  q == s.r[2]  n == N2(p)  m == N2(q) IN
    CASE o[1] = "mul" -> Same(k, HMul(p, IF o[2] = 2 THEN p ELSE q), w)
      [] o[1] = "conj" -> w = Conj(p)
      [] o[1] = "dot" -> Same(k, <<Dot(p, q)>>, w)
      [] o[1] = "cmp" -> w = <<B(p = q), B(p # q), B(p = q), B(p = q), B(p = q), B(n = 0), B(n = 0), B(n = 1), 0, 1, 0>>
      [] o[1] = "odd" -> w = <<1, 0, 1, 0, 0>>
      [] o[1] = "const" -> w = <<0, 0, 0, 0, 1, 0, 0, 0>> \o HMul(<<1, 2, 3, 4>>, <<5, 6, 7, 8>>) \o Conj(<<1, 2, 3, 4>>) \o Poly(<<1, 2, 3, 4>>, <<1, -1, 2>>)
      [] o[1] = "rot" -> LET v == Poly(p, Args(o, 2, 3)) IN Same(k, v \o v, w)
      [] o[1] = "norm" -> IF n = 0 THEN w = <<>> ELSE Len(w) = 5 /\ Along(k, SubSeq(w, 1, 4), p) /\ w[5] = 1
      \* ----- unit quaternions: h/|h| -----
      [] o[1] = "urot" -> IF n = 0 THEN w = <<>>
           ELSE LET v == Args(o, 2, 3)  u == Apply(RotM(p), v) IN Len(w) = 3 /\ \A i \in 1..3 : Quot(k, u[i], n, w[i], Norm1(v))
      [] o[1] = "uu" ->        \* one rotation after the other, as one
           IF n = 0 \/ m = 0 THEN w = <<>>
           ELSE LET v == Args(o, 2, 3)  u == Apply(RotM(HMul(p, q)), v) IN
                Len(w) = 3 /\ \A i \in 1..3 : Quot(k, u[i], n * m, w[i], 2 * Norm1(v))
      [] o[1] = "tomat" ->     \* the matrix of it: 0 3x3, 1 3x4, 2 4x4
           IF n = 0 THEN w = <<>>
           ELSE LET M == RotM(p) IN Len(w) = 9 /\ \A i \in 1..9 : Quot(k, M[((i - 1) \div 3) + 1][((i - 1) % 3) + 1], n, w[i], 2)
      [] o[1] = "frommat" ->   \* shape, how: from the matrix of it; both signs stand for that rotation
           IF n = 0 THEN w = <<>> ELSE Line(k, w, p)
      [] o[1] = "toaa" ->      \* shortest; axis, angle, the cosine and the sine of half the angle
           IF n = 0 THEN w = <<>>
           ELSE LET h == IF o[2] = 1 THEN ShortWay(p) ELSE p  a == SubSeq(w, 1, 3)  v2 == Dot(V(p), V(p)) IN
                /\ Len(w) = 6
                /\ IF v2 = 0 THEN UnitLength(k, a) ELSE Along(k, a, V(h))
                /\ w[4] >= -2 /\ w[4] <= (IF o[2] = 1 THEN 3217 ELSE 6434) + 4 * T(k)
                /\ Abs(w[5] * w[5] * n - 1048576 * h[1] * h[1]) <= 4096 * T(k) * n /\ (h[1] = 0 \/ w[5] = 0 \/ Sgn(w[5]) = Sgn(h[1]))
                /\ Abs(w[6] * w[6] * n - 1048576 * v2) <= 4096 * T(k) * n
      [] o[1] = "fromaa" ->    \* axis, multiples of 60 degrees, how
           LET a == Args(o, 2, 3)  t == o[5] IN
           IF a = <<0, 0, 0>> THEN w = <<>>
           ELSE /\ Len(w) = 4
                /\ Abs(w[1] - Cos30(t)) <= T(k)
                /\ \A i \in 1..3 : /\ Abs(4 * w[i + 1] * w[i + 1] * Dot(a, a) - 1048576 * Four30(t) * a[i] * a[i]) <= 16384 * T(k) * Dot(a, a)
                                   /\ (Abs(w[i + 1]) <= T(k) \/ Sgn(w[i + 1]) = Sgn(a[i]) * Sgn(Sin30(t)))
      [] o[1] = "toeuler" ->   \* cosines and sines of yaw, pitch, roll; then pitch itself
           IF n = 0 THEN w = <<>>
           ELSE Len(w) = 7 /\ w[7] \in -1610..1610 /\ CloseM(k, EulerM(w[1], w[2], w[3], w[4], w[5], w[6]), RotM(p), n, IF Half(k) THEN 16 ELSE 4)
      [] o[1] = "fromeuler" -> \* yaw, pitch, roll in 30 degrees, how
           LET want == EulerM(Cos30(o[2]), Sin30(o[2]), Cos30(o[3]), Sin30(o[3]), Cos30(o[4]), Sin30(o[4])) IN
           Len(w) = 4 /\ UnitLength(k, w) /\ CloseM(k, Mat3(LAMBDA i, j : RotM(w)[i][j] \div 1024), want, 1024, IF Half(k) THEN 16 ELSE 8)
      [] o[1] = "between" ->   \* the shortest rotation from one direction to another
           LET u == Args(o, 2, 3)  v == Args(o, 5, 3)  c == Cross(u, v)  d == Dot(u, v) IN
           IF Dot(u, u) = 0 \/ Dot(v, v) = 0 THEN w = <<>>
           ELSE LET r == [i \in 1..3 |-> Apply(RotM(w), u)[i] \div 1024] IN
                /\ Len(w) = 4 /\ UnitLength(k, w) /\ w[1] >= -T(k)
                /\ \A i \in 1..3 : Abs(Cross(r, v)[i]) <= 6 * T(k) * Norm1(u) * Norm1(v)
                /\ Dot(r, v) > 0
                /\ IF c = <<0, 0, 0>> THEN d > 0 \/ Abs(w[1]) <= T(k)
                   ELSE (\A i \in 1..3 : Abs(Cross(V(w), c)[i]) <= 2 * T(k) * Norm1(c)) /\ Dot(V(w), c) > 0
      [] o[1] = "slerp" ->     \* quarters of the way, form
           IF n = 0 \/ m = 0 THEN w = <<>>
           ELSE LET rel == HMul(Conj(p), q)
                    r == [i \in 1..4 |-> HMul(Conj(p), w)[i]]           \* |p| times the rotation from the start, in 1/1024
                    way(h) == IF o[2] = 0 THEN Along(k, w, p) ELSE IF o[2] = 4 THEN Along(k, w, IF h = rel THEN q ELSE Neg(q))
                              ELSE /\ Dot(V(r), V(h)) >= -(4 * T(k) * Norm1(p) * (Norm1(V(h)) + 1))
                                   /\ r[1] >= -(4 * T(k) * Norm1(p))
                                   /\ LET r2 == [i \in 1..4 |-> HMul(r, r)[i] \div (1024 * n)]
                                          r4 == MulQ(r2, r2) IN
                                      IF o[2] = 2 THEN Along4(k, r2, h) ELSE Along4(k, r4, HPow(h, o[2]))
                IN Len(w) = 4 /\ UnitLength(k, w)
                   /\ IF rel[1] > 0 THEN way(rel) ELSE IF rel[1] < 0 THEN way(Neg(rel)) ELSE way(rel) \/ way(Neg(rel))
      [] o[1] = "pow" ->       \* the rotation by a multiple (in halves) of the angle, the short way round; form
           IF n = 0 THEN w = <<>>
           ELSE LET h == ShortWay(p)  x == o[2] IN
                /\ Len(w) = 4
                /\ IF (x % 2) = 0 THEN Along4(k, w, HPow(h, x \div 2))
                   ELSE Along4(k, MulQ(w, w), HPow(h, x)) /\ UnitLength(k, w)
                        /\ (IF x \in -1..1 THEN w[1] >= -T(k) ELSE TRUE)
                        /\ Sgn(x) * Dot(V(w), V(h)) >= -(T(k) * Norm1(h))
                        /\ (V(h) = <<0, 0, 0>> => w[1] > 0)
      \* ----- the other notations -----
      [] o[1] = "aav" ->       \* axis and angle, how: as given; as a vector; with an infinity or a nan in it or without
           LET a == Args(o, 3, 3)  g == IF o[2] = 1 THEN 0 ELSE o[6] IN w = a \o <<g>> \o a \o a \o <<g>> \o <<0, 1, 0>>
      [] o[1] = "euv" ->       \* how, yaw, pitch, roll, scalar
           LET a == Args(o, 3, 3)  e == <<a[1], a[2], IF o[2] = 1 THEN 0 ELSE a[3]>>  x == [i \in 1..3 |-> o[6] * e[i]] IN
           Same(k, e \o e \o x \o x \o x \o <<0, 1>>, w)
      [] OTHER -> w = <<>>
\* every event ends with both quaternions, read through one of the accessors
Rejects(s, e) ==
    LET o == e.op  t == Next1(s, o)  c == Len(e.out) - 8 IN
    IF o[1] \in {"crash", "hang"} THEN Reject(o[1])
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(c < 0 \/ SubSeq(e.out, c + 1, Len(e.out)) # t.r[1] \o t.r[2], Reject("wrong elements"))
         \cup If(c >= 0 /\ ~Good(s, o, SubSeq(e.out, 1, c)), Reject("wrong result"))

Some == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<-1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 0, -2>>, <<1, 1, 0, 0>>, <<1, 0, -1, 0>>, <<-1, 1, 1, -1>>,
         <<2, 1, 3, 1>>, <<-1, 3, 0, 2>>, <<1, 2, 2, 4>>, <<0, 3, -1, 2>>}
Queries(s) ==
    {<<"mul", f>> : f \in 0..2} \cup {<<x>> : x \in {"conj", "dot", "cmp", "const", "norm"}}
    \cup {<<"odd", i, x>> : i \in 0..3, x \in 0..2} \cup {<<"rot", 1, -2, 3>>, <<"urot", 3, 1, -2>>, <<"uu", 1, 2, -1>>}
    \cup {<<"tomat", x>> : x \in 0..2} \cup {<<"frommat", x, f>> : x \in 0..2, f \in 0..1} \cup {<<"toaa", x, f>> : x \in 0..1, f \in 0..1}
    \cup {<<"fromaa", 1, 2, -1, t, f>> : t \in {-1, 0, 1, 3, 4}, f \in 0..2} \cup {<<"toeuler", f>> : f \in 0..1}
    \cup {<<"fromeuler", y, z, r, 0>> : y \in {0, 4}, z \in {-3, 0, 1}, r \in {0, 1}} \cup {<<"fromeuler", 1, 2, 3, f>> : f \in 1..2}
    \cup {<<"between", 1, 2, -1>> \o v : v \in {<<2, 1, 0>>, <<-1, -2, 1>>, <<-2, -4, 2>>, <<3, 6, -3>>, <<-1, -2, 2>>}}
    \cup {<<"slerp", a, f>> : a \in 0..4, f \in 0..2} \cup {<<"pow", x, f>> : x \in {-2, -1, 0, 1, 2, 3, 4, 6}, f \in 0..2}
    \cup {<<"aav", h, 1, 2, 3, 4>> : h \in 0..4} \cup {<<"euv", h, 1, 2, 3, 4>> : h \in 0..4}
GenOps(s) ==
    {<<"kind", k>> : k \in 3..5} \cup {<<"set", r, 0>> \o q : r \in 1..2, q \in Some} \cup {<<"set", 1, h, 2, -1, 3, 1>> : h \in 1..5}
    \cup {<<"put", 2, h, i, 4>> : h \in 0..2, i \in 0..3} \cup {<<"copy", 1, 2>>} \cup Queries(s)
GenBound(s) == TRUE
=============================================================================
