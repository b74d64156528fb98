------------------------------ MODULE VConsts ------------------------------
(* muu::constants of the composite types. A vector's or matrix's constant is the scalar's in every component; axes and
   directions are those of a right-handed system (x right, y up, z backward) or of the screen (y down); a rotation matrix takes
   the forward direction to the one it is named after (in its upper left 3x3 block, the identity around it); zero and unit
   shapes, coordinate planes, the zero and identity quaternion, the name spaces of RFC 4122. Components are given in halves
   (7: one over the root of two). Clause N06.                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
If(p, set) == IF p THEN set ELSE {}
Float == 1..4
Signed == 1..5
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Join(Tail(q))
Nul(n) == [i \in 1..n |-> 0]
\* a vector of n components that is x in the i-th
Ax(n, i, x) == [j \in 1..n |-> IF j = i THEN 2 * x ELSE 0]
Spread(k, n) == <<n>> \o Nul(14 + (IF k \in Float THEN 56 ELSE 0))
Dirs(k, n) ==
    <<Ax(n, 1, 1)>> \o (IF n > 1 THEN <<Ax(n, 1, 1), Ax(n, n, 1), Ax(n, 2, 1)>> ELSE <<>>)
    \o (IF n >= 2 THEN <<Ax(n, 2, 1)>> ELSE <<>>) \o (IF n >= 3 THEN <<Ax(n, 3, 1)>> ELSE <<>>) \o (IF n >= 4 THEN <<Ax(n, 4, 1)>> ELSE <<>>)
    \o (IF n = 2 THEN <<Ax(n, 1, 1), Ax(n, 2, 1)>> \o (IF k \in Signed THEN <<Ax(n, 1, -1), Ax(n, 2, -1)>> ELSE <<>>) ELSE <<>>)
    \o (IF n \in {2, 3} THEN <<Ax(n, 1, 1), Ax(n, 2, 1)>> \o (IF k \in Signed THEN <<Ax(n, 1, -1), Ax(n, 2, -1)>> ELSE <<>>) ELSE <<>>)
    \o (IF n = 3 THEN <<Ax(n, 3, 1)>> \o (IF k \in Signed THEN <<Ax(n, 3, -1)>> ELSE <<>>)
                      \o (IF k \in Float THEN <<<<-7, 0, -7>>, <<7, 0, -7>>>> ELSE <<>>) ELSE <<>>)
\* the rows of a 3x3 rotation
Right3 == <<<<0, 0, -1>>, <<0, 1, 0>>, <<1, 0, 0>>>>
Up3 == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
Times3(x, y) == [r \in 1..3 |-> [c \in 1..3 |-> (x[r][1] * y[1][c]) + (x[r][2] * y[2][c]) + (x[r][3] * y[3][c])]]
Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Flip3(x) == [r \in 1..3 |-> [c \in 1..3 |-> x[c][r]]]
Takes(x, v) == [r \in 1..3 |-> (x[r][1] * v[1]) + (x[r][2] * v[2]) + (x[r][3] * v[3])]
\* what the names promise about them
ASSUME /\ Takes(Right3, <<0, 0, -1>>) = <<1, 0, 0>> /\ Takes(Flip3(Right3), <<0, 0, -1>>) = <<-1, 0, 0>>
       /\ Takes(Up3, <<0, 0, -1>>) = <<0, 1, 0>> /\ Takes(Flip3(Up3), <<0, 0, -1>>) = <<0, -1, 0>>
       /\ Takes(Times3(Right3, Right3), <<0, 0, -1>>) = <<0, 0, 1>>
       /\ Times3(Right3, Flip3(Right3)) = Id3 /\ Times3(Up3, Flip3(Up3)) = Id3
Put3(x, rn, cn) == [i \in 1..rn * cn |-> LET r == ((i - 1) \div cn) + 1  c == ((i - 1) % cn) + 1 IN
                       IF r <= 3 /\ c <= 3 THEN 2 * x[r][c] ELSE IF r = c THEN 2 ELSE 0]
IdN(rn, cn) == [i \in 1..rn * cn |-> IF (i - 1) \div cn = (i - 1) % cn THEN 2 ELSE 0]
Turns(k, rn, cn) ==
    (IF rn \in {3, 4} /\ cn \in {3, 4} /\ k \in Float
     THEN Join([i \in 1..5 |-> Put3(<<Right3, Up3, Times3(Right3, Right3), Flip3(Right3), Flip3(Up3)>>[i], rn, cn)]) ELSE <<>>)
    \o IdN(rn, cn)
Boxes == Nul(6) \o <<0, 0, 0, 1, 1, 1>>
ShapesOut == Boxes \o Boxes \o IdN(3, 3) \o IdN(3, 3) \o Nul(4) \o <<0, 0, 0, 2>> \o Nul(6) \o Nul(9)
             \o Nul(4) \o <<0, 0, 2, 0>> \o <<0, 2, 0, 0>> \o <<2, 0, 0, 0>> \o Nul(4) \o <<2, 0, 0, 0>>
\* 6BA7B81x-9DAD-11D1-80B4-00C04FD430C8
Space(n) == <<107, 167, 184, n, 157, 173, 17, 209, 128, 180, 0, 192, 79, 212, 48, 200>>
UuidsOut == Nul(16) \o Space(16) \o Space(17) \o Space(18) \o Space(20)
Init0 == 0
Step(s, e) == s
Good(o, w) ==
    CASE o[1] = "spread" -> w = Spread(o[2], o[3])
      [] o[1] = "fill" -> w = Spread(o[2], o[3] * o[4])
      [] o[1] = "axes" -> w = Join(Dirs(o[2], o[3]))
      [] o[1] = "turns" -> w = Turns(o[2], o[3], o[4])
      [] o[1] = "shapes" -> w = ShapesOut
      [] o[1] = "uuids" -> w = UuidsOut
      [] OTHER -> w = <<>>
Rejects(s, e) ==
    LET o == e.op IN
    IF o[1] \in {"crash", "hang"} THEN {<<"N06", o[1]>>}
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(~Good(o, e.out), {<<"N06", o[1]>>})
Dims == {<<2, 2>>, <<2, 3>>, <<3, 3>>, <<3, 4>>, <<4, 3>>, <<4, 4>>}
GenOps(s) == {<<"spread", k, n>> : k \in 1..6, n \in 1..5} \cup {<<"axes", k, n>> : k \in 1..6, n \in 1..5}
             \cup {<<"fill", k, d[1], d[2]>> : k \in 1..6, d \in Dims} \cup {<<"turns", k, d[1], d[2]>> : k \in 1..6, d \in Dims}
             \cup {<<"shapes", k>> : k \in Float} \cup {<<"uuids">>}
GenBound(s) == TRUE
=============================================================================
