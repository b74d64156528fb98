-------------------------------- MODULE Geom --------------------------------
(* muu's shapes (point, line_segment, triangle, bounding_box, oriented_bounding_box, bounding_sphere, plane, ray) against
   exact geometry. State: the scalar type and two shapes x and y with integer coordinates; oriented boxes turn by rational
   matrices A/D. Containment, distance and intersection are decided in integers: convex shapes are apart iff one of the
   finitely many candidate axes separates them. An answer is 1, 0 or Open; Open is what the scalar's precision leaves
   undecided (touching shapes where the code has to take roots) and shapes that are degenerate.
   Clauses: G01 (containment, closest points, sizes, corners, moving and growing), G02 (intersections and ray hits).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
Open == 2
Abs(v) == IF v < 0 THEN -v ELSE v
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Clamp(v, a, b) == Lo(Hi(v, a), b)
RECURSIVE ISq(_, _, _)
ISq(n, a, b) == IF b - a <= 1 THEN a ELSE LET m == (a + b) \div 2 IN IF m * m <= n THEN ISq(n, m, b) ELSE ISq(n, a, m)
Root(n) == ISq(n, 0, 46341)                      \* the integer part of the root
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(f, a) == <<f * a[1], f * a[2], f * a[3]>>
Sq(a) == Dot(a, a)
D2(a, b) == Sq(Sub(a, b))
Zero3 == <<0, 0, 0>>
At(v, i) == <<v[i], v[i + 1], v[i + 2]>>
AbsV(a) == <<Abs(a[1]), Abs(a[2]), Abs(a[3])>>
MinV(a, b) == <<Lo(a[1], b[1]), Lo(a[2], b[2]), Lo(a[3], b[3])>>
MaxV(a, b) == <<Hi(a[1], b[1]), Hi(a[2], b[2]), Hi(a[3], b[3])>>
Leq(a, b) == a[1] <= b[1] /\ a[2] <= b[2] /\ a[3] <= b[3]
Axis3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>

\* shapes: <<tag, numbers...>>
PT == 1  SEG == 2  TRI == 3  BOX == 4  OBB == 5  BALL == 6  PLANE == 7  RAY == 8
\* PT p; SEG p0 p1; TRI p0 p1 p2; BOX min max; OBB center extents columns of A, D; BALL center radius; PLANE normal d; RAY origin direction
P(h, i) == At(h, 3 * i + 2)                     \* the i-th triple
Pts(h) == CASE h[1] = PT -> <<P(h, 0)>> [] h[1] = SEG -> <<P(h, 0), P(h, 1)>> [] OTHER -> <<P(h, 0), P(h, 1), P(h, 2)>>
ObbD(h) == h[17]
Cols(h) == IF h[1] = BOX THEN Axis3 ELSE <<P(h, 2), P(h, 3), P(h, 4)>>
Normal(h) == Cross(Sub(P(h, 1), P(h, 0)), Sub(P(h, 2), P(h, 0)))
IsBox(h) == h[1] \in {BOX, OBB}
Bad(h) == CASE h[1] = SEG -> P(h, 0) = P(h, 1) [] h[1] = TRI -> Normal(h) = Zero3 [] h[1] = PLANE -> P(h, 0) = Zero3 [] h[1] = RAY -> P(h, 1) = Zero3 [] OTHER -> FALSE

\* ---- sets of points --------------------------------------------------------------------------------------------------
OnSeg(a, b, p) == LET u == Sub(b, a)  v == Sub(p, a) IN Cross(u, v) = Zero3 /\ Dot(u, v) >= 0 /\ Dot(u, v) <= Sq(u)
\* p, on the plane of the triangle or projected to it, is in it
OverTri(a, b, c, p) == LET n == Cross(Sub(b, a), Sub(c, a)) IN
    /\ Dot(Cross(Sub(b, a), Sub(p, a)), n) >= 0 /\ Dot(Cross(Sub(c, b), Sub(p, b)), n) >= 0 /\ Dot(Cross(Sub(a, c), Sub(p, c)), n) >= 0
OnPlaneOf(h, p) == Dot(Normal(h), Sub(p, P(h, 0))) = 0
\* the squared distance of p from a segment, compared with r2: -1 nearer, 0 equal, 1 further
Cmp(v, w) == IF v < w THEN -1 ELSE IF v > w THEN 1 ELSE 0
SegDist(a, b, p, r2) == LET u == Sub(b, a)  v == Sub(p, a)  t == Dot(u, v)  l == Sq(u) IN
    IF t <= 0 THEN Cmp(Sq(v), r2) ELSE IF t >= l THEN Cmp(D2(p, b), r2) ELSE Cmp(Sq(v) * l - t * t, r2 * l)
TriDist(h, p, r2) == LET n == Normal(h)  d == Dot(n, Sub(p, P(h, 0))) IN
    IF OverTri(P(h, 0), P(h, 1), P(h, 2), p) THEN Cmp(d * d, r2 * Sq(n))
    ELSE Lo(SegDist(P(h, 0), P(h, 1), p, r2), Lo(SegDist(P(h, 1), P(h, 2), p, r2), SegDist(P(h, 2), P(h, 0), p, r2)))
\* the coordinates of p in the box's own axes, times D, against the extents times D
Local(h, p) == LET v == Sub(p, P(h, 0)) IN <<Dot(P(h, 2), v), Dot(P(h, 3), v), Dot(P(h, 4), v)>>
\* 1 inside, 0 outside, -1 on the boundary
InObb(h, p) == LET l == AbsV(Local(h, p))  e == Mul(ObbD(h), P(h, 1)) IN
    IF ~Leq(l, e) THEN 0 ELSE IF \E i \in 1..3 : l[i] = e[i] THEN -1 ELSE 1
CornerOf(h, i) ==                                \* times D
    LET sx == IF i % 2 = 1 THEN 1 ELSE -1  sy == IF (i \div 2) % 2 = 1 THEN 1 ELSE -1  sz == IF i \div 4 = 1 THEN 1 ELSE -1  e == P(h, 1) IN
    IF h[1] = BOX THEN <<IF sx = 1 THEN P(h, 1)[1] ELSE P(h, 0)[1], IF sy = 1 THEN P(h, 1)[2] ELSE P(h, 0)[2], IF sz = 1 THEN P(h, 1)[3] ELSE P(h, 0)[3]>>
    ELSE Add(Mul(ObbD(h), P(h, 0)), Add(Mul(sx * e[1], P(h, 2)), Add(Mul(sy * e[2], P(h, 3)), Mul(sz * e[3], P(h, 4)))))
BallInBox(b, s) == LET r == <<s[5], s[5], s[5]>> IN Leq(P(b, 0), Sub(P(s, 0), r)) /\ Leq(Add(P(s, 0), r), P(b, 1))

All(n, f(_)) == \A i \in 1..n : f(i)
\* does x contain y?
Inside(x, y) ==
    LET px == P(x, 0)  py == P(y, 0) IN
    CASE Bad(x) -> Open
      [] x[1] = SEG /\ y[1] \in {PT, SEG} -> B(\A i \in 1..Len(Pts(y)) : OnSeg(px, P(x, 1), Pts(y)[i]))
      [] x[1] = TRI /\ y[1] \in {PT, SEG} -> B(\A i \in 1..Len(Pts(y)) : OnPlaneOf(x, Pts(y)[i]) /\ OverTri(px, P(x, 1), P(x, 2), Pts(y)[i]))
      [] x[1] = PLANE /\ y[1] = PT -> B(Dot(px, py) + x[5] = 0)
      [] x[1] = BOX /\ y[1] \in {PT, SEG, TRI} -> B(\A i \in 1..Len(Pts(y)) : Leq(px, Pts(y)[i]) /\ Leq(Pts(y)[i], P(x, 1)))
      [] x[1] = BOX /\ y[1] = BOX -> B(Leq(px, py) /\ Leq(P(y, 1), P(x, 1)))
      [] x[1] = BOX /\ y[1] = BALL -> B(BallInBox(x, y))
      [] x[1] = BOX /\ y[1] = OBB ->
            LET d == ObbD(y)  lo == Mul(d, px)  hi == Mul(d, P(x, 1))  c == [i \in 0..7 |-> CornerOf(y, i)] IN
            IF \E i \in 0..7 : ~Leq(lo, c[i]) \/ ~Leq(c[i], hi) THEN 0
            ELSE IF d # 1 /\ \E i \in 0..7, j \in 1..3 : c[i][j] \in {lo[j], hi[j]} THEN Open ELSE 1
      [] x[1] = OBB /\ y[1] \in {PT, SEG, TRI} ->
            LET r == {InObb(x, Pts(y)[i]) : i \in 1..Len(Pts(y))} IN IF 0 \in r THEN 0 ELSE IF -1 \in r /\ ObbD(x) # 1 THEN Open ELSE 1
      [] x[1] = BALL /\ y[1] \in {PT, SEG, TRI} -> B(\A i \in 1..Len(Pts(y)) : D2(px, Pts(y)[i]) <= x[5] * x[5])
      [] x[1] = BALL /\ y[1] = BOX -> B(\A i \in 0..7 : D2(px, CornerOf(y, i)) <= x[5] * x[5])
      [] x[1] = BALL /\ y[1] = BALL -> B(x[5] >= y[5] /\ D2(px, py) <= (x[5] - y[5]) * (x[5] - y[5]))

\* ---- separating axes -------------------------------------------------------------------------------------------------
\* the interval of a shape along an axis, times 2F
Interval(h, a, F) ==
    CASE h[1] = BOX -> LET c == F * Dot(Add(P(h, 0), P(h, 1)), a)  r == F * Dot(Sub(P(h, 1), P(h, 0)), AbsV(a)) IN <<c - r, c + r>>
      [] h[1] = OBB -> LET c == 2 * F * Dot(P(h, 0), a)  e == P(h, 1)
                           r == 2 * (F \div ObbD(h)) * (e[1] * Abs(Dot(P(h, 2), a)) + e[2] * Abs(Dot(P(h, 3), a)) + e[3] * Abs(Dot(P(h, 4), a))) IN <<c - r, c + r>>
      [] OTHER -> LET v == [i \in 1..Len(Pts(h)) |-> 2 * F * Dot(Pts(h)[i], a)] IN
                  IF Len(v) = 1 THEN <<v[1], v[1]>> ELSE IF Len(v) = 2 THEN <<Lo(v[1], v[2]), Hi(v[1], v[2])>>
                  ELSE <<Lo(v[1], Lo(v[2], v[3])), Hi(v[1], Hi(v[2], v[3]))>>
\* the gap between the intervals: positive is apart, zero touching
Gap(x, y, a, F) == LET i == Interval(x, a, F)  j == Interval(y, a, F) IN Hi(i[1] - j[2], j[1] - i[2])
Faces(h) == CASE IsBox(h) -> {Cols(h)[i] : i \in 1..3} [] h[1] = TRI -> {Normal(h)} [] OTHER -> {}
Edges(h) == CASE IsBox(h) -> {Cols(h)[i] : i \in 1..3} [] h[1] = SEG -> {Sub(P(h, 1), P(h, 0))}
              [] h[1] = TRI -> {Sub(P(h, 1), P(h, 0)), Sub(P(h, 2), P(h, 1)), Sub(P(h, 0), P(h, 2))} [] OTHER -> {}
Axes(x, y) == (Faces(x) \cup Faces(y) \cup {Cross(a, b) : a \in Edges(x), b \in Edges(y)}
               \cup (IF x[1] = TRI /\ y[1] = TRI THEN {Cross(Normal(x), e) : e \in Edges(x)} \cup {Cross(Normal(y), e) : e \in Edges(y)} ELSE {})) \ {Zero3}
\* 1 they share inner points, 0 apart, -1 touching
Meet(x, y) ==
    LET F == (IF x[1] = OBB THEN ObbD(x) ELSE 1) * (IF y[1] = OBB THEN ObbD(y) ELSE 1)
        g == {Gap(x, y, a, F) : a \in Axes(x, y)} IN
    IF \E v \in g : v > 0 THEN 0 ELSE IF 0 \in g THEN -1 ELSE 1
\* the squared distance of p from a box times D^2
BoxDist2(h, p) == IF h[1] = BOX THEN LET q == MaxV(MinV(p, P(h, 1)), P(h, 0)) IN D2(p, q)
                  ELSE LET l == Local(h, p)  e == Mul(ObbD(h), P(h, 1))
                           o(i) == IF Abs(l[i]) > e[i] THEN Abs(l[i]) - e[i] ELSE 0 IN o(1) * o(1) + o(2) * o(2) + o(3) * o(3)
Touch(m, exact) == IF m = -1 THEN (IF exact THEN 1 ELSE Open) ELSE m
Overlap(x, y) ==
    CASE Bad(x) \/ Bad(y) -> Open
      [] x[1] = SEG /\ y[1] = PLANE -> LET a == Dot(P(y, 0), P(x, 0)) + y[5]  b == Dot(P(y, 0), P(x, 1)) + y[5] IN B(~((a > 0 /\ b > 0) \/ (a < 0 /\ b < 0)))
      [] x[1] = BOX /\ y[1] = PLANE -> LET n == P(y, 0) IN
            B(Abs(Dot(n, Add(P(x, 0), P(x, 1))) + 2 * y[5]) <= Dot(AbsV(n), Sub(P(x, 1), P(x, 0))))
      [] x[1] = SEG /\ y[1] = BOX -> Touch(Meet(x, y), TRUE)
      [] x[1] = TRI /\ y[1] = TRI /\ (\A i \in 0..2 : OnPlaneOf(x, P(y, i))) ->      \* in one plane: axes in that plane decide
            LET g == {Gap(x, y, Cross(Normal(x), e), 1) : e \in Edges(x) \cup Edges(y)} IN IF \E v \in g : v > 0 THEN 0 ELSE IF 0 \in g THEN Open ELSE 1
      [] x[1] = TRI /\ y[1] \in {TRI, BOX, OBB} -> Touch(Meet(x, y), FALSE)
      [] x[1] = BOX /\ y[1] = BOX -> Touch(Meet(x, y), TRUE)
      [] x[1] = BOX /\ y[1] = OBB -> Touch(Meet(x, y), ObbD(y) = 1)
      [] x[1] = OBB /\ y[1] = OBB -> Touch(Meet(x, y), ObbD(x) = 1 /\ ObbD(y) = 1)
      [] IsBox(x) /\ y[1] = BALL -> LET d == IF x[1] = OBB THEN ObbD(x) ELSE 1  c == Cmp(BoxDist2(x, P(y, 0)), y[5] * y[5] * d * d) IN
            IF c = 0 /\ d # 1 THEN Open ELSE B(c <= 0)
      [] x[1] = BALL /\ y[1] = BALL -> B(D2(P(x, 0), P(y, 0)) <= (x[5] + y[5]) * (x[5] + y[5]))
      [] x[1] = TRI /\ y[1] = BALL -> B(TriDist(x, P(y, 0), y[5] * y[5]) <= 0)
      [] x[1] = PT /\ y[1] = BOX -> B(Leq(P(y, 0), P(x, 0)) /\ Leq(P(x, 0), P(y, 1)))
\* the pairs that can be asked for, either way around
Askable == {<<SEG, PLANE>>, <<SEG, BOX>>, <<BOX, PLANE>>, <<TRI, TRI>>, <<TRI, BOX>>, <<TRI, OBB>>, <<TRI, BALL>>, <<BOX, BOX>>, <<BOX, OBB>>,
            <<OBB, OBB>>, <<BOX, BALL>>, <<OBB, BALL>>, <<BALL, BALL>>, <<PT, BOX>>}
CanHit(x, y) == <<x[1], y[1]>> \in Askable \/ <<y[1], x[1]>> \in Askable
Hits(x, y) == IF <<x[1], y[1]>> \in Askable THEN Overlap(x, y) ELSE Overlap(y, x)
Holds == {<<SEG, PT>>, <<SEG, SEG>>, <<TRI, PT>>, <<TRI, SEG>>, <<PLANE, PT>>, <<BOX, PT>>, <<BOX, SEG>>, <<BOX, TRI>>, <<BOX, BOX>>, <<BOX, BALL>>, <<BOX, OBB>>,
          <<OBB, PT>>, <<OBB, SEG>>, <<OBB, TRI>>, <<BALL, PT>>, <<BALL, SEG>>, <<BALL, TRI>>, <<BALL, BOX>>, <<BALL, BALL>>}
CanHold(x, y) == <<x[1], y[1]>> \in Holds

\* ---- rays: origin o, direction u (integers; the code gets the unit vector) --------------------------------------------
\* the hit at o + (num/den) u, den > 0: w = <<1, distance/1024>>; dist = num |u| / den
DistIs(w, num, den, u) == Len(w) = 2 /\ w[1] = 1 /\ Abs(w[2] * den - num * Root(1048576 * Sq(u))) <= den * 2 + Abs(num) + Abs(w[2] * den) \div 4096
NoHit(w) == w = <<0>>
RayPlane(r, p, w) ==
    LET n == P(p, 0)  nu == Dot(n, P(r, 1))  s == Dot(n, P(r, 0)) + p[5] IN
    IF s = 0 THEN nu = 0 \/ (Len(w) = 2 /\ w[1] = 1 /\ Abs(w[2]) <= 1)
    ELSE IF nu = 0 THEN NoHit(w) \/ (Len(w) = 2 /\ w[2] > 1000000 /\ \E i \in 1..3 : n[i] * P(r, 1)[i] # 0)       \* rounding may tilt a parallel ray
    ELSE IF (s > 0) = (nu > 0) THEN NoHit(w) ELSE DistIs(w, Abs(s), Abs(nu), P(r, 1))
RayTri(r, t, w) ==
    LET n == Normal(t)  nu == Dot(n, P(r, 1))  s == Dot(n, Sub(P(r, 0), P(t, 0)))
        side(a, b) == LET v == Dot(Cross(Sub(a, P(r, 0)), Sub(b, P(r, 0))), P(r, 1)) IN IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
        k == {side(P(t, 0), P(t, 1)), side(P(t, 1), P(t, 2)), side(P(t, 2), P(t, 0))} IN
    IF nu = 0 \/ s = 0 THEN (nu = 0 /\ s # 0) => NoHit(w)
    ELSE IF (s > 0) = (nu > 0) \/ {1, -1} \subseteq k THEN NoHit(w)
    ELSE IF 0 \in k THEN TRUE ELSE DistIs(w, Abs(s), Abs(nu), P(r, 1))
RayBall(r, s, w) ==
    LET e == Sub(P(s, 0), P(r, 0))  u == P(r, 1)  l == Sq(u)  a == Dot(e, u)  e2 == Sq(e)  r2 == s[5] * s[5]
        q == (r2 - e2) * l + a * a                 \* l * (r^2 - distance of the line^2)
        \* 256 l dist = 256 |u| (a +- sqrt q)
        num == IF e2 < r2 THEN 16 * a + Root(256 * q) ELSE 16 * a - Root(256 * q) IN
    IF e2 = r2 \/ (r2 = 0) THEN TRUE
    ELSE IF e2 > r2 THEN IF a < 0 \/ q < 0 THEN NoHit(w) ELSE IF q = 0 \/ a = 0 THEN TRUE
                         ELSE Len(w) = 2 /\ w[1] = 1 /\ Abs((w[2] \div 16) * l - (num * Root(65536 * l)) \div 64) <= 6 * l + (Root(65536 * l) \div 64) * 2
    ELSE Len(w) = 2 /\ w[1] = 1 /\ Abs((w[2] \div 16) * l - (num * Root(65536 * l)) \div 64) <= 6 * l + (Root(65536 * l) \div 64) * 2
\* the slabs: parameters as fractions with the common denominator K
RayBox(r, b, w) ==
    LET o == P(r, 0)  u == P(r, 1)  lo == P(b, 0)  hi == P(b, 1)
        K == (IF u[1] = 0 THEN 1 ELSE Abs(u[1])) * (IF u[2] = 0 THEN 1 ELSE Abs(u[2])) * (IF u[3] = 0 THEN 1 ELSE Abs(u[3]))
        mv == {i \in 1..3 : u[i] # 0}
        t1(i) == (IF u[i] > 0 THEN lo[i] - o[i] ELSE o[i] - hi[i]) * (K \div Abs(u[i]))
        t2(i) == (IF u[i] > 0 THEN hi[i] - o[i] ELSE o[i] - lo[i]) * (K \div Abs(u[i]))
        t0 == CHOOSE v \in {t1(i) : i \in mv} : \A i \in mv : t1(i) <= v
        te == CHOOSE v \in {t2(i) : i \in mv} : \A i \in mv : t2(i) >= v
        edge == t0 = te \/ te = 0 \/ t0 = 0 \/ (\E i \in 1..3 \ mv : o[i] \in {lo[i], hi[i]}) IN   \* grazing, or on the surface
    IF \E i \in 1..3 \ mv : o[i] < lo[i] \/ o[i] > hi[i] THEN NoHit(w)
    ELSE IF te < 0 \/ t0 > te THEN NoHit(w)
    ELSE (edge /\ NoHit(w)) \/ (edge /\ DistIs(w, te, K, u)) \/ DistIs(w, IF t0 < 0 THEN te ELSE t0, K, u)
RayHit(r, y, w) ==
    IF Bad(r) \/ Bad(y) THEN TRUE
    ELSE CASE y[1] = PLANE -> RayPlane(r, y, w) [] y[1] = TRI -> RayTri(r, y, w) [] y[1] = BALL -> RayBall(r, y, w) [] y[1] = BOX -> RayBox(r, y, w)
CanCast(x, y) == x[1] = RAY /\ y[1] \in {PLANE, TRI, BALL, BOX}

\* ---- the machine -----------------------------------------------------------------------------------------------------
Init0 == [k |-> 3, x |-> <<PT, 0, 0, 0>>, y |-> <<PT, 0, 0, 0>>]
Args(o, from) == SubSeq(o, from, Len(o))
OddV(v) == \A i \in 1..3 : v[i] % 2 = 1 /\ v[i] > 0
\* columns of a signed permutation: column j is sign * axis
PermCol(o, j) == Mul(IF o[2 + j] < 0 THEN -1 ELSE 1, Axis3[Abs(o[2 + j])])
Turned(o, v) == Add(Mul(v[1], PermCol(o, 1)), Add(Mul(v[2], PermCol(o, 2)), Mul(v[3], PermCol(o, 3))))
IsPerm(o) == {Abs(o[3]), Abs(o[4]), Abs(o[5])} = 1..3
TurnedBy(o, v) == Add(Turned(o, v), At(o, 6))
Unit1(v) == Sq(v) = 1
Map3(o, v) == Add(Mul(v[1], At(o, 3)), Add(Mul(v[2], At(o, 6)), Mul(v[3], At(o, 9))))
AppendTo(x, y) == LET q == IF y[1] = BOX THEN <<P(y, 0), P(y, 1)>> ELSE Pts(y)
                      lo == IF Len(q) = 1 THEN q[1] ELSE IF Len(q) = 2 THEN MinV(q[1], q[2]) ELSE MinV(q[1], MinV(q[2], q[3]))
                      hi == IF Len(q) = 1 THEN q[1] ELSE IF Len(q) = 2 THEN MaxV(q[1], q[2]) ELSE MaxV(q[1], MaxV(q[2], q[3])) IN
                  <<BOX>> \o MinV(P(x, 0), lo) \o MaxV(P(x, 1), hi)
CanMove(x) == x[1] \in {BOX, OBB, BALL}
Moved(x, v) == CASE x[1] = BOX -> <<BOX>> \o Add(P(x, 0), v) \o Add(P(x, 1), v)
                 [] x[1] = OBB -> <<OBB>> \o Add(P(x, 0), v) \o Args(x, 5)
                 [] OTHER -> <<BALL>> \o Add(P(x, 0), v) \o <<x[5]>>
CanGrow(x, v) == (x[1] = BOX /\ OddV(v)) \/ (x[1] = OBB /\ \A i \in 1..3 : v[i] > 0) \/ (x[1] = BALL /\ v[1] > 0)
Grown(x, v) == CASE x[1] = BOX -> LET c == Add(P(x, 0), P(x, 1))  d == Sub(P(x, 1), P(x, 0))  e == <<d[1] * v[1], d[2] * v[2], d[3] * v[3]>>  m == Sub(c, e)  n == Add(c, e) IN
                                  <<BOX, m[1] \div 2, m[2] \div 2, m[3] \div 2, n[1] \div 2, n[2] \div 2, n[3] \div 2>>
                 [] x[1] = OBB -> <<OBB>> \o P(x, 0) \o <<x[5] * v[1], x[6] * v[2], x[7] * v[3]>> \o Args(x, 8)
                 [] OTHER -> <<BALL>> \o P(x, 0) \o <<x[5] * v[1]>>
CanTurn(x, o) == IsPerm(o) /\ (x[1] = BOX \/ (x[1] = OBB /\ ObbD(x) = 1 /\ x[5] > 0 /\ x[6] > 0 /\ x[7] > 0) \/ (x[1] = PLANE /\ Unit1(P(x, 0))))
TurnIt(x, o) == CASE x[1] = BOX -> LET a == TurnedBy(o, P(x, 0))  b == TurnedBy(o, P(x, 1)) IN <<BOX>> \o MinV(a, b) \o MaxV(a, b)
                  [] x[1] = OBB -> <<OBB>> \o TurnedBy(o, P(x, 0)) \o P(x, 1) \o Turned(o, P(x, 2)) \o Turned(o, P(x, 3)) \o Turned(o, P(x, 4)) \o <<1>>
                  [] OTHER -> LET n == Turned(o, P(x, 0)) IN <<PLANE>> \o n \o <<-Dot(n, TurnedBy(o, Mul(-x[5], P(x, 0))))>>
\* the smallest box around the image of a box under any linear map
Mapped(x, o) == LET lo == P(x, 0)  hi == P(x, 1)
                    t(j, f(_, _)) == f(Mul(lo[j], At(o, 3 * j)), Mul(hi[j], At(o, 3 * j)))
                    tr == At(o, 12) IN
                <<BOX>> \o Add(tr, Add(t(1, MinV), Add(t(2, MinV), t(3, MinV)))) \o Add(tr, Add(t(1, MaxV), Add(t(2, MaxV), t(3, MaxV))))
AxisSeg(x) == x[1] = SEG /\ Cardinality({i \in 1..3 : P(x, 0)[i] # P(x, 1)[i]}) = 1
Extended(x, by) == LET d == Sub(P(x, 1), P(x, 0)) IN
                   <<SEG>> \o P(x, 0) \o [i \in 1..3 |-> P(x, 1)[i] + by * (IF d[i] > 0 THEN 1 ELSE IF d[i] < 0 THEN -1 ELSE 0)]
Next1(s, o) ==
    CASE o[1] = "kind" -> [Init0 EXCEPT !.k = o[2]]
      [] o[1] = "set"  -> IF o[2] = 1 THEN [s EXCEPT !.x = Args(o, 4)] ELSE [s EXCEPT !.y = Args(o, 4)]
      [] o[1] = "swap" -> [s EXCEPT !.x = s.y, !.y = s.x]
      [] o[1] = "copy" -> [s EXCEPT !.y = s.x]
      [] o[1] = "move" -> IF CanMove(s.x) THEN [s EXCEPT !.x = Moved(s.x, At(o, 3))] ELSE s
      [] o[1] = "grow" -> IF CanGrow(s.x, At(o, 3)) THEN [s EXCEPT !.x = Grown(s.x, At(o, 3))] ELSE s
      [] o[1] = "turn" -> IF CanTurn(s.x, o) THEN [s EXCEPT !.x = TurnIt(s.x, o)] ELSE s
      [] o[1] = "map"  -> IF s.x[1] = BOX THEN [s EXCEPT !.x = Mapped(s.x, o)] ELSE s
      [] o[1] = "add"  -> IF s.x[1] = BOX /\ s.y[1] \in {PT, SEG, TRI, BOX} THEN [s EXCEPT !.x = AppendTo(s.x, s.y)] ELSE s
      [] o[1] = "rev"  -> IF s.x[1] = SEG THEN [s EXCEPT !.x = <<SEG>> \o P(s.x, 1) \o P(s.x, 0)] ELSE s
      [] o[1] = "ext"  -> IF AxisSeg(s.x) THEN [s EXCEPT !.x = Extended(s.x, o[3])] ELSE s
      [] OTHER -> s
Step(s, e) == Next1(s, e.op)

\* ---- what is logged of a shape: every number times two (boxes have halves), oriented axes times D ---------------------------
Twice(v) == [i \in 1..Len(v) |-> 2 * v[i]]
Data(h) == CASE h[1] = BOX -> Add(P(h, 0), P(h, 1)) \o Sub(P(h, 1), P(h, 0))
             [] h[1] = OBB -> Twice(P(h, 0)) \o Twice(P(h, 1)) \o [i \in 1..9 |-> h[7 + i]]
             [] OTHER -> Twice(Args(h, 2))
Every(w, n, v) == Len(w) = n /\ \A i \in 1..n : w[i] = v
\* every answer of w is v
Unanimous(w, v) == Len(w) >= 1 /\ (v = Open \/ \A i \in 1..Len(w) : w[i] = v)
Close(a, b, tol) == Abs(a - b) <= tol
\* w (1/1024) is the point num/den
IsPoint(w, num, den, tol) == Len(w) = 3 /\ \A i \in 1..3 : Abs(w[i] * den - 1024 * num[i]) <= tol * den
\* w (1/1024) is a vector of this length (integer or root: its square) along u
AlongLen(w, u, l2) == /\ Abs(Sq(w) - 1048576 * l2) <= 8192 * (Root(l2) + 1)
                      /\ Dot(w, u) >= 0
                      /\ \A i \in 1..3, j \in 1..3 : Abs(w[i] * u[j] - w[j] * u[i]) <= 2 * (Abs(u[i]) + Abs(u[j]))
Near(x, p, w) ==
    CASE Bad(x) -> TRUE
      [] x[1] = SEG -> LET u == Sub(P(x, 1), P(x, 0))  l == Sq(u)  t == Clamp(Dot(u, Sub(p, P(x, 0))), 0, l) IN IsPoint(w, Add(Mul(l, P(x, 0)), Mul(t, u)), l, 2)
      [] x[1] = BOX -> IsPoint(w, MaxV(MinV(p, P(x, 1)), P(x, 0)), 1, 0)
      [] x[1] = OBB -> LET d == ObbD(x)  l == Local(x, p)  e == Mul(d, P(x, 1))  c(i) == Clamp(l[i], -e[i], e[i]) IN
                       IsPoint(w, Add(Mul(d * d, P(x, 0)), Add(Mul(c(1), P(x, 2)), Add(Mul(c(2), P(x, 3)), Mul(c(3), P(x, 4))))), d * d, 2)
      [] x[1] = BALL -> LET v == Sub(p, P(x, 0)) IN
                        IF Sq(v) <= x[5] * x[5] THEN IsPoint(w, p, 1, 0)
                        ELSE Len(w) = 3 /\ AlongLen(Sub(w, Mul(1024, P(x, 0))), v, x[5] * x[5])
      [] x[1] = PLANE -> LET n == P(x, 0) IN IsPoint(w, Sub(Mul(Sq(n), p), Mul(Dot(n, p) + x[5], n)), Sq(n), 2)
      [] OTHER -> w = <<>>
\* lengths (1/1024)
IsRoot(w, n, tol) == Abs(w - Root(1048576 * n)) <= tol
SizeOk(x, w) ==
    CASE x[1] = SEG -> LET u == Sub(P(x, 1), P(x, 0)) IN
            Len(w) = 12 /\ w[1] = Sq(u) /\ w[2] = Sq(u) /\ IsRoot(w[3], Sq(u), 2) /\ IsRoot(w[4], Sq(u), 2)
            /\ At(w, 5) = Add(P(x, 0), P(x, 1)) /\ w[8] = B(Bad(x))
            /\ (~Bad(x) => IsRoot(w[9], Sq(u), 2) /\ AlongLen(At(w, 10), u, 1))
      [] x[1] = TRI -> LET n == Normal(x)  a2 == Sq(n) IN
            Len(w) = 14 /\ (~Bad(x) => AlongLen(At(w, 1), n, 1) /\ AlongLen(At(w, 4), n, 1) /\ Abs(w[7]) <= 2
                                       /\ Abs(w[8] - Root(16384 * a2)) <= 2 + (w[8] \div 64))
            /\ \A i \in 1..3 : Abs(3 * w[8 + i] - 1024 * (P(x, 0)[i] + P(x, 1)[i] + P(x, 2)[i])) <= 4
            /\ Abs(w[12] - Root(1048576 * D2(P(x, 0), P(x, 1))) - Root(1048576 * D2(P(x, 1), P(x, 2))) - Root(1048576 * D2(P(x, 0), P(x, 2)))) <= 5
            /\ w[13] = B(P(x, 0) = P(x, 1) \/ P(x, 0) = P(x, 2) \/ P(x, 1) = P(x, 2)) /\ w[14] = w[13]
      [] IsBox(x) -> LET d == IF x[1] = BOX THEN Sub(P(x, 1), P(x, 0)) ELSE Mul(2, P(x, 1))  vol == d[1] * d[2] * d[3] IN
            w = d \o <<Lo(d[1], Lo(d[2], d[3])), Hi(d[1], Hi(d[2], d[3])), Lo(d[1], Lo(d[2], d[3])), Hi(d[1], Hi(d[2], d[3])), vol, 3 * vol, 1,
                       B(d = Zero3), B(vol = 0), w[13]>> /\ IsRoot(w[13], Sq(d), 3)
      [] x[1] = BALL -> w = <<2 * x[5], x[5] * x[5] * x[5], 3 * x[5] * x[5] * x[5], 1, B(x[5] = 0), B(x[5] = 0)>>
      [] x[1] = RAY -> Len(w) = 9 /\ At(w, 1) = Add(P(x, 0), Mul(3, P(x, 1))) /\ At(w, 4) = At(w, 1) /\ At(w, 7) = <<1, -2, 3>>
      [] x[1] = PLANE -> Len(w) = 8 /\ (~Bad(x) => AlongLen(At(w, 1), P(x, 0), 1)
                            /\ (Abs(w[4]) < 40000 => Close(w[4], (IF x[5] < 0 THEN -1 ELSE 1) * Root((1048576 * x[5] * x[5]) \div Sq(P(x, 0))), 2))
                            /\ w[5] = B(Unit1(P(x, 0))) /\ IsPoint(At(w, 6), Mul(-x[5], P(x, 0)), Sq(P(x, 0)), 2))
      [] OTHER -> w = <<>>
\* signed and unsigned distance of points from a plane, and whether they are on the same side (the side of a point on the plane is the upper one)
SideOk(x, y, w) ==
    LET q == Pts(y)  n == P(x, 0)  v(i) == Dot(n, q[i]) + x[5]  l == Sq(n) IN
    IF x[1] # PLANE \/ y[1] \notin {PT, SEG, TRI} THEN w = <<>>
    ELSE IF Bad(x) THEN TRUE
    ELSE /\ Len(w) = 2 * Len(q) + (IF Len(q) = 1 THEN 0 ELSE 2)
         /\ \A i \in 1..Len(q) : /\ Close(w[2 * i - 1], (IF v(i) < 0 THEN -1 ELSE 1) * Root((65536 * v(i) * v(i)) \div l), 2)
                                 /\ Close(w[2 * i], Root((65536 * v(i) * v(i)) \div l), 2)
         /\ Len(q) > 1 => \A i \in 2 * Len(q) + 1..Len(w) : w[i] = B(\A j \in 1..Len(q) : (v(j) >= 0) = (v(1) >= 0))
FlatOk(x, y, w) ==
    CASE x[1] = SEG /\ y[1] = PT -> Bad(x) \/ Unanimous(w, B(Cross(Sub(P(x, 1), P(x, 0)), Sub(P(y, 0), P(x, 0))) = Zero3))
      [] x[1] = SEG /\ y[1] = SEG -> Bad(x) \/ Bad(y) \/
            (Len(w) = 4 /\ Unanimous(SubSeq(w, 1, 2), B(Cross(Sub(P(x, 1), P(x, 0)), Sub(P(y, 0), P(x, 0))) = Zero3 /\ Cross(Sub(P(x, 1), P(x, 0)), Sub(P(y, 1), P(x, 0))) = Zero3))
             /\ Unanimous(SubSeq(w, 3, 4), B(Dot(Cross(Sub(P(x, 1), P(x, 0)), Sub(P(y, 0), P(x, 0))), Sub(P(y, 1), P(x, 0))) = 0)))
      [] x[1] = TRI /\ y[1] = PT -> Bad(x) \/ Unanimous(w, B(OnPlaneOf(x, P(y, 0))))
      [] OTHER -> w = <<>>
\* barycentric coordinates (1/1024): they add up to one and give the point's projection
BaryOk(x, y, w) ==
    IF x[1] # TRI \/ y[1] # PT THEN w = <<>>
    ELSE IF Bad(x) THEN TRUE
    ELSE LET n == Normal(x)  p == P(y, 0)  n2 == Sq(n)
             c(a, b) == Dot(Cross(Sub(b, a), Sub(p, a)), n)   \* times n2
         IN Len(w) = 6 /\ \A j \in {0, 3} :
              /\ Abs(w[j + 1] * n2 - 1024 * c(P(x, 1), P(x, 2))) <= 4 * n2 + n2 * (Abs(w[j + 1]) \div 1024)
              /\ Abs(w[j + 2] * n2 - 1024 * c(P(x, 2), P(x, 0))) <= 4 * n2 + n2 * (Abs(w[j + 2]) \div 1024)
              /\ Abs(w[j + 3] * n2 - 1024 * c(P(x, 0), P(x, 1))) <= 4 * n2 + n2 * (Abs(w[j + 3]) \div 1024)
CornersOk(x, w) == IF ~IsBox(x) THEN w = <<>>
                   ELSE LET d == IF x[1] = OBB THEN ObbD(x) ELSE 1 IN
                        Len(w) = 48 /\ \A i \in 0..7, j \in 1..3, f \in 0..1 : w[24 * f + 3 * i + j] = CornerOf(x, i)[j]
\* the bounding box of another shape, as center and extents times 2048
BoxOf(x, w) ==
    CASE x[1] = BALL -> w = Twice(Mul(1024, P(x, 0))) \o Twice(Mul(1024, <<x[5], x[5], x[5]>>))
      [] x[1] = OBB -> LET e == P(x, 1)  d == ObbD(x)  r(i) == e[1] * Abs(P(x, 2)[i]) + e[2] * Abs(P(x, 3)[i]) + e[3] * Abs(P(x, 4)[i]) IN
                       Len(w) = 6 /\ \A i \in 1..3 : Abs(w[i] - 2048 * P(x, 0)[i]) <= 2 /\ Abs(w[3 + i] * d - 2048 * r(i)) <= 2 * d
      [] x[1] \in {SEG, TRI} -> LET b == AppendTo(<<BOX>> \o P(x, 0) \o P(x, 0), x) IN w = Mul(1024, Add(P(b, 0), P(b, 1))) \o Mul(1024, Sub(P(b, 1), P(b, 0)))
      [] OTHER -> w = <<>>
\* two triangles that meet: the common segment's ends (1/256) lie on both (planes and in the boxes around them)
OnTri(h, q) == LET n == Normal(h)  a == P(h, 0) IN
    /\ Abs(Dot(n, q) - 256 * Dot(n, a)) <= 6 * (Abs(n[1]) + Abs(n[2]) + Abs(n[3]))
    /\ \A i \in 1..3 : LET v == {P(h, j)[i] : j \in 0..2} IN (\E m \in v : 256 * m <= q[i] + 6) /\ (\E m \in v : 256 * m >= q[i] - 6)
Common(x, y, w) ==       \* four routes' answers, then whether there is a segment, then its ends
    /\ Len(w) = (IF Len(w) >= 5 /\ w[5] = 1 THEN 11 ELSE 5)
    /\ w[5] \in {0, 1} /\ Unanimous(SubSeq(w, 1, 4), Hits(x, y))
    /\ w[5] = 1 => w[3] = 1 /\ (Bad(x) \/ Bad(y) \/ Hits(x, y) # 1 \/ \A i \in {6, 9} : OnTri(x, At(w, i)) /\ OnTri(y, At(w, i)))
Numbers(h) == Args(h, 2)
SatOk(x, y, o, w) ==
    IF x[1] \notin {PT, SEG, TRI} \/ y[1] \notin {PT, SEG, TRI} THEN w = <<>>
    ELSE Unanimous(w, B(Gap(x, y, At(o, 2), 1) <= 0))
\* half: only where every intermediate number is exact
Fine(s) == s.k # 5 \/ (s.x[1] \in {PT, BOX, BALL} /\ s.y[1] \in {PT, BOX, BALL})
G1 == {"size", "near", "in", "flat", "bary", "corner", "box", "side", "same", "odd"}
Good(s, o, w) ==
    LET x == s.x  y == s.y IN
    CASE o[1] = "in"   -> IF CanHold(x, y) THEN ~Fine(s) \/ Unanimous(w, Inside(x, y)) ELSE w = <<>>
      [] o[1] = "hit"  -> IF ~Fine(s) THEN TRUE
                          ELSE IF CanCast(x, y) THEN Len(w) % 2 = 0 /\ LET h == Len(w) \div 2 IN RayHit(x, y, SubSeq(w, 1, h)) /\ SubSeq(w, 1, h) = SubSeq(w, h + 1, 2 * h)
                          ELSE IF x[1] = TRI /\ y[1] = TRI THEN Common(x, y, w)
                          ELSE IF CanHit(x, y) THEN Unanimous(w, Hits(x, y)) ELSE w = <<>>
      [] o[1] = "sat"  -> SatOk(x, y, o, w)
      [] s.k = 5 /\ o[1] \in {"size", "near", "flat", "bary", "side", "box"} -> TRUE
      [] o[1] = "size" -> SizeOk(x, w)
      [] o[1] = "near" -> IF y[1] = PT /\ x[1] \in {SEG, BOX, OBB, BALL, PLANE} THEN Near(x, P(y, 0), w) ELSE w = <<>>
      [] o[1] = "flat" -> FlatOk(x, y, w)
      [] o[1] = "bary" -> BaryOk(x, y, w)
      [] o[1] = "corner" -> CornersOk(x, w)
      [] o[1] = "box"  -> BoxOf(x, w)
      [] o[1] = "side" -> SideOk(x, y, w)
      [] o[1] = "same" -> IF x[1] = PT \/ x[1] # y[1] THEN w = <<>>
                          ELSE LET z == (\A i \in 1..Len(Data(x)) : Data(x)[i] = 0) IN
                               w = <<B(x = y), B(x # y), B(x = y), B(x = y), B(x = y), B(z), 0, 1, 0>>
      [] o[1] = "odd"  -> IF x[1] = PT THEN w = <<>> ELSE w = <<1, 0, 1>>
      [] OTHER -> w = <<>>
Clause(o) == IF o[1] \in {"hit", "sat"} THEN "G02" ELSE "G01"
Rejects(s, e) ==
    LET o == e.op  t == Next1(s, o)  d == Data(t.x) \o Data(t.y)  c == Len(e.out) - Len(d) IN
    IF o[1] \in {"crash", "hang"} THEN {<<Clause(IF "of" \in DOMAIN e THEN e.of ELSE o), o[1]>>}
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(c < 0 \/ SubSeq(e.out, c + 1, Len(e.out)) # d, {<<"G01", "wrong shape">>})
         \cup If(c >= 0 /\ ~Good(s, o, SubSeq(e.out, 1, c)), {<<Clause(o), "wrong answer">>})

Turn1 == <<1, 0, 0, 0, 1, 0, 0, 0, 1, 1>>
Turn3 == <<2, 2, -1, -1, 2, 2, 2, -1, 2, 3>>
Turn5 == <<3, 4, 0, -4, 3, 0, 0, 0, 5, 5>>
SomeX == {<<SEG, 0, 0, 0, 3, 0, 0>>, <<SEG, -1, 2, 0, 1, -2, 3>>, <<TRI, 0, 0, 0, 4, 0, 0, 0, 4, 0>>, <<TRI, -1, -1, 2, 2, 0, -1, 0, 3, 1>>,
          <<BOX, -1, -1, -1, 1, 1, 1>>, <<BOX, 0, -2, 1, 3, 0, 2>>, <<OBB, 0, 0, 0, 1, 2, 1>> \o Turn3, <<OBB, 1, 0, -1, 2, 1, 1>> \o Turn1,
          <<BALL, 0, 0, 0, 2>>, <<BALL, 1, -1, 2, 3>>, <<PLANE, 0, 1, 0, -2>>, <<PLANE, 1, 2, -2, 3>>, <<RAY, -4, 0, 0, 1, 0, 0>>, <<RAY, -2, 3, -3, 1, -2, 2>>}
SomeY == {<<PT, 0, 0, 0>>, <<PT, 2, -1, 1>>, <<PT, 5, 0, 0>>, <<SEG, 2, 0, 0, 5, 0, 0>>, <<TRI, 1, 1, -2, 1, 1, 2, 3, 1, 0>>,
          <<BOX, 1, 1, 1, 3, 3, 3>>, <<OBB, 3, 0, 0, 1, 1, 2>> \o Turn5, <<BALL, 3, 0, 0, 2>>, <<PLANE, 1, 0, 0, -1>>}
Moves == {<<"move", f, 1, -2, 0>> : f \in 0..1} \cup {<<"grow", f, 3, 1, 5>> : f \in 0..1} \cup {<<"turn", f, 2, -3, 1, 0, 1, -1>> : f \in 0..1}
         \cup {<<"map", 0, 1, 1, 0, -1, 1, 0, 0, 2, 1, 1, 0, -1>>} \cup {<<"add">>, <<"swap">>, <<"copy">>, <<"rev", 0>>, <<"rev", 1>>, <<"ext", 0, 2>>, <<"ext", 1, -1>>}
Asks == {<<q>> : q \in {"in", "hit", "size", "near", "flat", "bary", "corner", "box", "side", "same"}} \cup {<<"odd", i, v>> : i \in 0..2, v \in 0..2} \cup {<<"sat", 1, 2, -1>>}
GenOps(s) ==
    {<<"kind", k>> : k \in 3..5} \cup {<<"set", 1, 0>> \o h : h \in SomeX} \cup {<<"set", 2, 0>> \o h : h \in SomeY}
    \cup {<<"set", 1, f, BOX, -2, 0, 1, 0, 2, 3>> : f \in 1..9} \cup Moves \cup Asks
GenBound(s) == s.x[1] # PT => \A i \in 1..Len(s.x) : Abs(s.x[i]) <= 12
=============================================================================
