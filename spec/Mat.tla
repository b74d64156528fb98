-------------------------------- MODULE Mat --------------------------------
(* muu::matrix: R by C scalars with the arithmetic of the mathematical matrix. State: the scalar type, the shape and two
   matrices (rows of integers). Results on floating-point types are exact where they are integers; quotients, roots and
   rotations are compared within the precision they are logged in. Clause V02.                                        *)
EXTENDS Integers, Sequences, TLC
Reject(why) == {<<"V02", why>>}
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
\* scalar types: 0 int, 1 short, 2 unsigned char, 3 float, 4 double, 5 half
Float(k) == k >= 3
Wrap(k, x) == IF k = 1 THEN ((x + 32768) % 65536) - 32768 ELSE IF k = 2 THEN x % 256 ELSE x
Shapes == <<<<1, 1>>, <<2, 2>>, <<2, 3>>, <<3, 3>>, <<3, 4>>, <<4, 4>>, <<4, 2>>, <<3, 2>>, <<1, 3>>, <<5, 5>>>>
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
TDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
RECURSIVE SumTo(_, _)
SumTo(v, i) == IF i = 0 THEN 0 ELSE v[i] + SumTo(v, i - 1)
Sum(v) == SumTo(v, Len(v))
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
\* ----- matrices: rows of numbers -----
Mat(m, n, f(_, _)) == [i \in 1..m |-> [j \in 1..n |-> f(i, j)]]
Rows(M) == Len(M)
Cols(M) == Len(M[1])
Col(M, j) == [i \in 1..Rows(M) |-> M[i][j]]
Flat(M) == [x \in 1..(Rows(M) * Cols(M)) |-> M[((x - 1) \div Cols(M)) + 1][((x - 1) % Cols(M)) + 1]]
FromFlat(v, from, m, n) == Mat(m, n, LAMBDA i, j : v[from + (i - 1) * n + (j - 1)])
Pad(v, x) == IF x <= Len(v) THEN v[x] ELSE 0
Transpose(M) == Mat(Cols(M), Rows(M), LAMBDA i, j : M[j][i])
Mul(M, N) == Mat(Rows(M), Cols(N), LAMBDA i, j : Dot(M[i], Col(N, j)))
Map(M, f(_)) == Mat(Rows(M), Cols(M), LAMBDA i, j : f(M[i][j]))
Identity(m, n) == Mat(m, n, LAMBDA i, j : B(i = j))
Minor(M, r, c) == Mat(Rows(M) - 1, Rows(M) - 1, LAMBDA i, j : M[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1])
RECURSIVE Det(_)
Det(M) == IF Rows(M) = 1 THEN M[1][1]
          ELSE Sum([j \in 1..Rows(M) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * (IF M[1][j] = 0 THEN 0 ELSE M[1][j] * Det(Minor(M, 1, j)))])
Adjugate(M) == IF Rows(M) = 1 THEN <<<<1>>>>
               ELSE Mat(Rows(M), Rows(M), LAMBDA i, j : (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(M, j, i)))
\* the rotation by a quarter turns around an axis: right-handed
Cosq(a) == <<1, 0, -1, 0>>[(a % 4) + 1]
Sinq(a) == <<0, 1, 0, -1>>[(a % 4) + 1]
Turn(axis, a) == CASE axis = 0 -> <<<<1, 0, 0>>, <<0, Cosq(a), -Sinq(a)>>, <<0, Sinq(a), Cosq(a)>>>>
                   [] axis = 1 -> <<<<Cosq(a), 0, Sinq(a)>>, <<0, 1, 0>>, <<-Sinq(a), 0, Cosq(a)>>>>
                   [] OTHER    -> <<<<Cosq(a), -Sinq(a), 0>>, <<Sinq(a), Cosq(a), 0>>, <<0, 0, 1>>>>
\* M in the upper left, the identity elsewhere (without a fourth row or column: what fits)
Embed(M, m, n) == Mat(m, n, LAMBDA i, j : IF i <= Rows(M) /\ j <= Cols(M) THEN M[i][j] ELSE B(i = j))
\* M in the upper left, zero elsewhere
Conv(M, m, n) == Mat(m, n, LAMBDA i, j : IF i <= Rows(M) /\ j <= Cols(M) THEN M[i][j] ELSE 0)

Init0 == [k |-> 0, m |-> 2, n |-> 2, r |-> <<Conv(<<<<0>>>>, 2, 2), Conv(<<<<0>>>>, 2, 2)>>]
Vals(o, from) == [i \in 1..(Len(o) - from + 1) |-> o[from + i - 1]]
CastM(k, M) == Map(M, LAMBDA x : Wrap(k, x))
Next1(s, o) ==
    CASE o[1] = "kind" -> LET z == Conv(<<<<0>>>>, Shapes[o[3]][1], Shapes[o[3]][2]) IN
                          [k |-> o[2], m |-> Shapes[o[3]][1], n |-> Shapes[o[3]][2], r |-> <<z, z>>]
      \* register, how, scalars in rows: those not given are zero
      [] o[1] = "set" -> [s EXCEPT !.r[o[2]] =
                             CastM(s.k, Mat(s.m, s.n, LAMBDA i, j : Pad(Vals(o, 4), (i - 1) * s.n + j)))]
      [] o[1] = "fill" -> [s EXCEPT !.r[o[2]] = CastM(s.k, Mat(s.m, s.n, LAMBDA i, j : o[3]))]
      [] o[1] = "put"  -> [s EXCEPT !.r[o[2]][o[4] + 1][o[5] + 1] = Wrap(s.k, o[6])]       \* register, how, row, column, value
      [] o[1] = "copy" -> [s EXCEPT !.r[o[2]] = s.r[o[3]]]
      [] OTHER -> s
Step(s, e) == Next1(s, e.op)

\* ----- results -----
Exact(k, v) == k # 5 \/ \A i \in 1..Len(v) : Abs(v[i]) <= 2048
Same(k, want, got) == Len(want) = Len(got) /\ (Exact(k, want) => got = want)
SameM(k, M, got) == Same(k, Flat(CastM(k, M)), got)
\* q logged in 1/4096: it is num/den up to the rounding of the type
Quot(k, num, den, q) == Abs(4096 * num - q * den) <= Abs(den) * (IF k = 5 THEN 4 + (Abs(q) \div 400) ELSE 1 + (Abs(q) \div 100000))
Root(k, sq, q) == q >= 0 /\ Abs(q * q - 4096 * sq) <= (IF k = 5 THEN 8 ELSE 2) * q + (IF k = 5 THEN 200 ELSE 1)      \* in 1/64
Near(k, want, got) == Len(want) = Len(got) /\ \A i \in 1..Len(want) : Abs(256 * want[i] - got[i]) <= (IF k = 5 THEN 3 ELSE 1)     \* in 1/256
Scale2(s) == s.m >= 2 /\ s.n >= 2 /\ s.m <= s.n /\ s.m + 1 >= s.n /\ s.n <= 4         \* 2x2 2x3 3x3 3x4 4x4
Three(s) == s.m \in 3..4 /\ s.n \in 3..4 /\ s.m <= s.n                                \* 3x3 3x4 4x4
Xlat2(s) == <<s.m, s.n>> \in {<<2, 3>>, <<3, 3>>, <<3, 4>>, <<4, 4>>}
Xlat3(s) == <<s.m, s.n>> \in {<<3, 4>>, <<4, 4>>}
Rot2(s) == Float(s.k) /\ <<s.m, s.n>> \in {<<2, 2>>, <<2, 3>>, <<3, 3>>}
Rot3(s) == Float(s.k) /\ Three(s)
Diag(s, v) == Mat(s.m, s.n, LAMBDA i, j : IF i # j THEN 0 ELSE IF i <= Len(v) THEN v[i] ELSE 1)
Moved(s, v) == Mat(s.m, s.n, LAMBDA i, j : IF j = s.n /\ i <= Len(v) THEN v[i] ELSE B(i = j))
Small(M) == \A i \in 1..Rows(M), j \in 1..Cols(M) : Abs(M[i][j]) <= 9
Part(M, n) == Conv(M, n, n)
Ops(s, o) == IF o[3] = 2 THEN <<s.r[1], s.r[1]>> ELSE <<s.r[1], s.r[2]>>
\* orthonormal columns of q (1/1024, rows of numbers)
Close(x, y, tol) == Abs(x - y) <= tol
Dotq(u, v) == (Dot(u, v) \div 1024)
Orthonormal(k, q) == LET t == IF k = 5 THEN 12 ELSE 4 IN
    \A i \in 1..3, j \in 1..3 : Close(Dotq(Col(q, i), Col(q, j)), IF i = j THEN 1024 ELSE 0, t)
Norm1(v) == Sum([i \in 1..Len(v) |-> Abs(v[i])])
\* q is what Gram and Schmidt make of the columns of M
GramSchmidt(k, M, q) ==
    LET t == IF k = 5 THEN 4 ELSE 1
        c == [j \in 1..3 |-> Col(M, j)]  d == [j \in 1..3 |-> Col(q, j)]  p == Cross(c[1], c[2]) IN
    /\ Orthonormal(k, q)
    /\ \A j \in 1..3 : Dot(c[j], d[j]) >= 0
    /\ \A i \in 1..3 : Abs(Cross(c[1], d[1])[i]) <= t * (Norm1(c[1]) + 1)
    /\ Abs(Dot(p, d[2])) <= t * (Norm1(p) + 1)
Good(s, o, w) ==
    LET k == s.k  m == s.m  n == s.n  A == s.r[1]  N == s.r[2] IN
    CASE o[1] = "add" -> LET x == Ops(s, o) IN                              \* 0 plus 1 minus, form
           SameM(k, Mat(m, n, LAMBDA i, j : IF o[2] = 0 THEN x[1][i][j] + x[2][i][j] ELSE x[1][i][j] - x[2][i][j]), w)
      [] o[1] = "neg" -> IF k = 2 THEN w = <<>> ELSE SameM(k, Map(A, LAMBDA x : -x), w)
      [] o[1] = "sc" -> SameM(k, Map(A, LAMBDA x : o[3] * x), w)             \* form, scalar
      [] o[1] = "own" ->                                                     \* 0 times 1 by, row, column of an element of its own
           LET t == A[(o[3] % m) + 1][(o[4] % n) + 1] IN
           IF o[2] = 0 THEN SameM(k, Map(A, LAMBDA x : t * x), w)
           ELSE IF t = 0 THEN w = <<>>
           ELSE IF Float(k) THEN Len(w) = m * n /\ \A i \in 1..(m * n) : Quot(k, Flat(A)[i], t, w[i])
           ELSE SameM(k, Map(A, LAMBDA x : TDiv(x, t)), w)
      [] o[1] = "div" ->
           IF o[3] = 0 THEN w = <<>>
           ELSE IF Float(k) THEN Len(w) = m * n /\ \A i \in 1..(m * n) : Quot(k, Flat(A)[i], o[3], w[i])
           ELSE SameM(k, Map(A, LAMBDA x : TDiv(x, o[3])), w)
      [] o[1] = "mul" -> IF m # n THEN w = <<>> ELSE LET x == Ops(s, o) IN SameM(k, Mul(x[1], x[2]), w)
      [] o[1] = "mult" ->      \* with the transposed other: both ways round
           LET x == Mul(A, Transpose(N))  y == Mul(Transpose(A), N) IN Same(k, Flat(CastM(k, x)) \o Flat(CastM(k, y)), w)
      [] o[1] = "mulx" ->      \* with a matrix of two columns, given in rows
           SameM(k, Mul(A, FromFlat(o, 2, n, 2)), w)
      [] o[1] = "mv" -> Same(k, [i \in 1..m |-> Wrap(k, Dot(A[i], Vals(o, 2)))], w)
      [] o[1] = "vm" -> Same(k, [j \in 1..n |-> Wrap(k, Dot(Col(A, j), Vals(o, 2)))], w)
      [] o[1] = "tr" -> w = Flat(Transpose(A))
      [] o[1] = "det" -> IF m # n \/ n > 4 THEN w = <<>> ELSE Small(A) => Same(k, <<Det(A)>>, w)
      [] o[1] = "inv" ->       \* nothing is promised for a singular matrix
           IF m # n \/ n > 4 THEN w = <<>>
           ELSE Small(A) => LET d == Det(A)  adj == Flat(Adjugate(A)) IN
                            Len(w) = n * n /\ (d # 0 => \A i \in 1..(n * n) : Quot(k, adj[i], d, w[i]))
      [] o[1] = "cmp" -> LET z == Conv(<<<<0>>>>, m, n) IN
           w = <<B(A = N), B(A # N), B(A = N), B(A = N), B(A = z), B(A = z), 0, 1, 0>>
      [] o[1] = "odd" -> IF ~Float(k) THEN w = <<>> ELSE w = <<1, 0, 0, 0>>
      [] o[1] = "ident" -> SameM(k, Identity(m, n), w)
      [] o[1] = "conv" ->      \* to 2x2, 3x4 and 5x5 of another scalar type
           w = Flat(Conv(A, 2, 2)) \o Flat(Conv(A, 3, 4)) \o Flat(Conv(A, 5, 5))
      [] o[1] = "cols" ->      \* the columns by name; the last one where it is the translation
           w = (IF n >= 2 THEN Col(A, 1) \o Col(A, 2) ELSE <<>>) \o (IF n >= 3 THEN Col(A, 3) ELSE <<>>)
               \o (IF n >= 4 THEN Col(A, 4) ELSE <<>>) \o (IF Xlat2(s) THEN Col(A, n) ELSE <<>>)
      [] o[1] = "const" ->     \* computed at compile time, for the matrix with 1,2,.. in its first row, 2,3,.. in its second, ...
           LET M == Mat(m, n, LAMBDA i, j : i + j - 1) IN
           w = Flat(Transpose(M)) \o Flat(Mul(M, Transpose(M))) \o (IF m = n /\ n <= 4 THEN <<Det(M)>> ELSE <<>>)
      \* ----- transformations -----
      [] o[1] = "scale2" -> IF ~Scale2(s) THEN w = <<>> ELSE SameM(k, Diag(s, <<o[2], o[3]>>), w)
      [] o[1] = "scale3" -> IF ~Three(s) THEN w = <<>> ELSE SameM(k, Diag(s, <<o[2], o[3], o[4]>>), w)
      [] o[1] = "xlat2" -> IF ~Xlat2(s) THEN w = <<>> ELSE SameM(k, Moved(s, <<o[2], o[3]>>), w)
      [] o[1] = "xlat3" -> IF ~Xlat3(s) THEN w = <<>> ELSE SameM(k, Moved(s, <<o[2], o[3], o[4]>>), w)
      [] o[1] = "axes2" -> IF ~Rot2(s) THEN w = <<>>        \* x axis, y axis
                           ELSE SameM(k, Embed(<<<<o[2], o[4]>>, <<o[3], o[5]>>>>, m, n), w)
      [] o[1] = "axes3" -> IF ~Rot3(s) THEN w = <<>>
                           ELSE SameM(k, Embed(<<<<o[2], o[5], o[8]>>, <<o[3], o[6], o[9]>>, <<o[4], o[7], o[10]>>>>, m, n), w)
      [] o[1] = "rot2" ->      \* from the rotation in a matrix of that shape (0 2x2, 1 2x3, 2 3x3), whose other elements do not matter
           IF ~Rot2(s) THEN w = <<>>
           ELSE LET c == IF o[2] = 0 THEN 2 ELSE 3 IN SameM(k, Embed(<<<<o[3], o[4]>>, <<o[3 + c], o[4 + c]>>>>, m, n), w)
      [] o[1] = "rot3" ->      \* 0 3x3, 1 3x4, 2 4x4
           IF ~Rot3(s) THEN w = <<>>
           ELSE LET c == IF o[2] = 0 THEN 3 ELSE 4 IN SameM(k, Embed(Mat(3, 3, LAMBDA i, j : o[2 + (i - 1) * c + j]), m, n), w)
      [] o[1] = "quat" ->      \* s, x, y, z: the polynomial of the rotation matrix
           IF ~Rot3(s) THEN w = <<>>
           ELSE LET q == o[2]  x == o[3]  y == o[4]  z == o[5] IN
                SameM(k, Embed(<<<<1 - 2 * (y * y + z * z), 2 * (x * y - q * z), 2 * (x * z + q * y)>>,
                                 <<2 * (x * y + q * z), 1 - 2 * (x * x + z * z), 2 * (y * z - q * x)>>,
                                 <<2 * (x * z - q * y), 2 * (y * z + q * x), 1 - 2 * (x * x + y * y)>>>>, m, n), w)
      [] o[1] = "turn" -> IF ~Rot3(s) THEN w = <<>> ELSE Near(k, Flat(Embed(Turn(o[2], o[3]), m, n)), w)
      [] o[1] = "euler" ->     \* yaw to the right around y, then pitch upwards around x, then roll to the right around z (forward is -z)
           IF ~Rot3(s) THEN w = <<>> ELSE Near(k, Flat(Embed(Mul(Mul(Turn(2, -o[4]), Turn(0, o[3])), Turn(1, -o[2])), m, n)), w)
      [] o[1] = "dir" ->       \* looking along a direction: z points backwards, x is horizontal, y up
           IF ~Rot3(s) \/ (o[2] = 0 /\ o[3] = 0 /\ o[4] = 0) THEN w = <<>>
           ELSE LET q == FromFlat(w, 1, m, n)  d == <<o[2], o[3], o[4]>>  t == IF k = 5 THEN 6 ELSE 2
                    x == Col(Part(q, 3), 1)  y == Col(Part(q, 3), 2)  z == Col(Part(q, 3), 3) IN
                /\ Len(w) = m * n
                /\ Orthonormal(k, Part(q, 3))
                /\ \A i \in 1..3 : Close(Dotq(Cross(x, y), <<B(i = 1), B(i = 2), B(i = 3)>>), z[i], 3 * t)
                /\ \A i \in 1..3 : Abs(Cross(d, z)[i]) <= t * (Norm1(d) + 1)
                /\ Dot(d, z) < 0
                /\ IF d[1] = 0 /\ d[3] = 0 THEN Close(x[1], 1024, t) ELSE Close(x[2], 0, t) /\ y[2] >= 0
                /\ \A i \in 1..m, j \in 1..n : i = 4 \/ j = 4 => q[i][j] = 1024 * B(i = j)
      [] o[1] = "tpos" ->      \* transformed as a position
           IF ~Rot3(s) THEN w = <<>>
           ELSE LET p == <<o[2], o[3], o[4], 1>>
                    at(i) == Sum([j \in 1..n |-> A[i][j] * p[j]])
                    h == IF m = 4 THEN at(4) ELSE 1 IN
                /\ Len(w) = 3
                /\ (h # 0 => \A i \in 1..3 : Abs(at(i)) <= 2000 => Quot(k, at(i), h, w[i]))
      [] o[1] = "tdir" ->      \* without the translation; as a direction: as long as before
           IF ~Rot3(s) THEN w = <<>>
           ELSE LET d == <<o[2], o[3], o[4]>>  v == [i \in 1..3 |-> A[i][1] * d[1] + A[i][2] * d[2] + A[i][3] * d[3]]
                    e == SubSeq(w, 4, 6) IN
                /\ Len(w) = 6 /\ Same(k, v, SubSeq(w, 1, 3))
                /\ (v # <<0, 0, 0>> /\ d # <<0, 0, 0>>) =>
                      LET t == IF k = 5 THEN 6 ELSE 2 IN
                      /\ \A i \in 1..3 : e[i] = 0 \/ Sgn(e[i]) = Sgn(v[i])
                      /\ \A i \in 1..3 : Abs(Cross(v, e)[i]) <= t * Norm1(v)
                      /\ Abs(Dot(e, e) - 4096 * Dot(d, d)) <= 2 * t * Norm1(e) + 64
      [] o[1] = "size" ->      \* the scale: the lengths of the columns
           LET len2 == IF Float(k) /\ Scale2(s) /\ <<m, n>> \in {<<2, 2>>, <<2, 3>>, <<3, 3>>} THEN 2 ELSE 0
               len3 == IF Rot3(s) THEN 3 ELSE 0
               sq(j, h) == Sum([i \in 1..h |-> A[i][j] * A[i][j]]) IN
           /\ Len(w) = len2 + len3
           /\ \A j \in 1..len2 : Root(k, sq(j, 2), w[j])
           /\ \A j \in 1..len3 : Root(k, sq(j, 3), w[len2 + j])
      [] o[1] = "shear" ->     \* whether the axes are not orthogonal; zero axes are left open
           LET c(j, h) == SubSeq(Col(A, j), 1, h)
               bad(h) == \E i \in 1..h : \E j \in 1..h : i < j /\ Dot(c(i, h), c(j, h)) # 0
               zero(h) == \E i \in 1..h : Dot(c(i, h), c(i, h)) = 0
               two == IF Rot2(s) THEN 1 ELSE 0  three == IF Rot3(s) THEN 1 ELSE 0 IN
           /\ Len(w) = two + three
           /\ two = 1 => (zero(2) \/ w[1] = B(bad(2)))
           /\ three = 1 => (zero(3) \/ w[two + 1] = B(bad(3)))
      [] o[1] = "ortho" ->     \* orthonormalized, and whether this and that are orthonormal; singular matrices are left open
           IF ~Rot3(s) THEN w = <<>>
           ELSE /\ Len(w) = m * n + 2
                /\ (Small(A) /\ Det(Part(A, 3)) # 0) =>
                     LET q == FromFlat(w, 1, m, n) IN
                     /\ (Dot(Cross(Col(Part(A, 3), 1), Col(Part(A, 3), 2)), Cross(Col(Part(A, 3), 1), Col(Part(A, 3), 2))) > 0
                         => GramSchmidt(k, Part(A, 3), Part(q, 3)))
                     /\ \A i \in 1..m, j \in 1..n : i = 4 \/ j = 4 => q[i][j] = 1024 * A[i][j]
                     /\ w[m * n + 1] = B(Mul(Transpose(Part(A, 3)), Part(A, 3)) = Identity(3, 3))
                     /\ w[m * n + 2] = 1
      [] o[1] = "persp" ->     \* API (0 DirectX, 1 OpenGL, +2 left-handed), form, aspect ratio, near, far; the field of view is a right angle
           IF ~(Float(k) /\ <<m, n>> = <<4, 4>>) THEN w = <<>>
           ELSE LET gl == o[2] % 2 = 1  lh == o[2] >= 2  a == o[4]  z0 == o[5]  z1 == o[6]
                    side == IF lh THEN 1 ELSE -1
                    want == Mat(4, 4, LAMBDA i, j :
                        IF i = 1 /\ j = 1 THEN <<1, a>> ELSE IF i = 2 /\ j = 2 THEN <<1, 1>> ELSE IF i = 4 /\ j = 3 THEN <<side, 1>>
                        ELSE IF i = 3 /\ j = 3 THEN <<side * (IF gl THEN z1 + z0 ELSE z1), z1 - z0>>
                        ELSE IF i = 3 /\ j = 4 THEN <<-(IF gl THEN 2 ELSE 1) * z0 * z1, z1 - z0>> ELSE <<0, 1>>) IN
                Len(w) = 16 /\ \A i \in 1..16 : LET f == Flat(want)[i] IN
                      Abs(4096 * f[1] - w[i] * f[2]) <= f[2] * (IF k = 5 THEN 8 + (Abs(w[i]) \div 100) ELSE 1 + (Abs(w[i]) \div 50000))
      [] OTHER -> w = <<>>
\* every event ends with both matrices in rows, read through one of the accessors
Rejects(s, e) ==
    LET o == e.op  t == Next1(s, o)  c == Len(e.out) - 2 * t.m * t.n IN
    IF o[1] \in {"crash", "hang"} THEN Reject(o[1])
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(c < 0 \/ SubSeq(e.out, c + 1, Len(e.out)) # Flat(t.r[1]) \o Flat(t.r[2]), Reject("wrong elements"))
         \cup If(c >= 0 /\ ~Good(s, o, SubSeq(e.out, 1, c)), Reject("wrong result"))

GenKinds == {<<"kind", k, i>> : k \in 0..5, i \in 1..Len(Shapes)}
Some(n, x) == [i \in 1..n |-> ((x * i * i + 3 * i + x) % 10) - (IF x = 1 THEN 0 ELSE 0)]
Queries(s) ==
    {<<"add", op, f>> : op \in 0..1, f \in 0..2} \cup {<<"neg">>} \cup {<<"own", op, s.m - 1, 0>> : op \in 0..1} \cup {<<"own", op, 0, 0>> : op \in 0..1} \cup {<<"sc", f, 3>> : f \in 0..2} \cup {<<"div", f, 2>> : f \in 0..1}
    \cup {<<"mul", 0, f>> : f \in 0..2} \cup {<<"mult">>, <<"mulx">> \o Some(2 * s.n, 3)}
    \cup {<<"mv">> \o Some(s.n, 2), <<"vm">> \o Some(s.m, 2)}
    \cup {<<x>> : x \in {"tr", "det", "inv", "cmp", "ident", "conv", "cols", "const", "size", "shear", "ortho"}}
    \cup {<<"odd", s.m - 1, s.n - 1, x>> : x \in 0..2}
    \cup {<<"scale2", 2, 3>>, <<"scale3", 2, 3, 4>>, <<"xlat2", 5, 6>>, <<"xlat3", 5, 6, 7>>, <<"axes2", 1, 2, 3, 4>>}
    \cup {<<"axes3", 1, 2, 3, 4, 5, 6, 7, 8, 9>>} \cup {<<"rot2", x>> \o Some(9, 3) : x \in 0..2} \cup {<<"rot3", x>> \o Some(16, 3) : x \in 0..2}
    \cup {<<"quat", 2, 1, 3, 2>>, <<"turn", 1, 1>>, <<"euler", 1, 1, 0>>, <<"dir", 1, 2, 3>>, <<"dir", 0, 1, 0>>, <<"dir", 0, -2, 0>>}
    \cup {<<"tpos", 1, 2, 3>>, <<"tdir", 1, 2, 3>>} \cup {<<"persp", x, f, 2, 1, 3>> : x \in 0..3, f \in 0..1}
GenOps(s) ==
    GenKinds
    \cup {<<"set", r, how>> \o Some(s.m * s.n, r) : r \in 1..2, how \in 0..5}
    \cup {<<"set", 1, 0>> \o Some(s.m * s.n - 1, 2) : x \in IF s.m * s.n >= 3 THEN {1} ELSE {}}
    \cup {<<"fill", 2, 5>>, <<"put", 1, (s.m + s.n) % 4, s.m - 1, s.n - 1, 6>>, <<"copy", 1, 2>>} \cup Queries(s)
GenBound(s) == TRUE
=============================================================================
