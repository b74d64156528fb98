------------------------------- MODULE IntRange -------------------------------
(* muu::integral_range: the half-open range [s, e) of an integral or pointer type. Numbers are written <<k, d>> = k*H + d
   where H is 2^(width-1) of the type, so that the limits of every type are near 0, H or -H. State: the type in use and
   two ranges. Clause N02.                                                                                           *)
EXTENDS Integers, Sequences, TLC
Reject(why) == {<<"N02", why>>}
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
\* types: 0 int8, 1 uint8, 2 int16, 3 int32, 4 uint32, 5 int64, 6 uint64, 7 byte pointer, 8 int pointer, 9 int128, 10 uint16
Types == 0..10
Signed(t) == t \in {0, 2, 3, 5, 9}
Pointer(t) == t \in {7, 8}
\* H itself, for the types whose ranges may span more than one limit and still are exact here
Small(t) == t \in {0, 1, 2, 10}
HH(t) == IF t \in {0, 1} THEN 128 ELSE 32768
Norm(t, x) == IF Small(t) THEN <<0, x[1] * HH(t) + x[2]>> ELSE x
Less(t, a, b) == LET x == Norm(t, a)  y == Norm(t, b) IN x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Eq(t, a, b) == Norm(t, a) = Norm(t, b)
Le(t, a, b) == Less(t, a, b) \/ Eq(t, a, b)
Sub(t, a, b) == LET x == Norm(t, a)  y == Norm(t, b) IN <<x[1] - y[1], x[2] - y[2]>>
MinR(t, a, b) == IF Less(t, b, a) THEN b ELSE a
MaxR(t, a, b) == IF Less(t, a, b) THEN b ELSE a
Init0 == [ty |-> 3, r |-> <<[s |-> <<0, 0>>, e |-> <<0, 0>>], [s |-> <<0, 0>>, e |-> <<0, 0>>]>>]
Next1(st, o) ==
    CASE o[1] = "type" -> [Init0 EXCEPT !.ty = o[2]]
      [] o[1] = "set"  -> [st EXCEPT !.r[o[2]] = [s |-> <<o[3], o[4]>>, e |-> <<o[5], o[6]>>]]
      [] o[1] = "upto" -> [st EXCEPT !.r[o[2]] = [s |-> <<0, 0>>, e |-> <<o[3], o[4]>>]]
      [] o[1] = "copy" -> [st EXCEPT !.r[o[2]] = st.r[o[3]]]
      [] o[1] = "join" -> LET a == st.r[o[2]]  b == st.r[o[3]] IN
                          [st EXCEPT !.r[o[2]] = [s |-> MinR(st.ty, a.s, b.s), e |-> MaxR(st.ty, a.e, b.e)]]
      [] OTHER -> st
Step(st, e) == Next1(st, e.op)
Empty(t, r) == Eq(t, r.s, r.e)
\* what is observed of a number: normalised by the driver the same way (|d| small)
SameNum(t, o, x) == Norm(t, <<o[1], o[2]>>) = Norm(t, x)
\* one range: s, e (numbers), empty, bool, size (number), first, last (numbers; <<0,0>> if empty)
See(t, r, o) == /\ SameNum(t, SubSeq(o, 1, 2), r.s) /\ SameNum(t, SubSeq(o, 3, 4), r.e)
                /\ o[5] = B(Empty(t, r)) /\ o[6] = B(~Empty(t, r))
                /\ SameNum(t, SubSeq(o, 7, 8), Sub(t, r.e, r.s))
                /\ SameNum(t, SubSeq(o, 9, 10), r.s)
                /\ Empty(t, r) \/ SameNum(t, SubSeq(o, 11, 12), <<r.e[1], r.e[2] - 1>>)
\* relations between two non-empty ranges: contains, adjacent, intersects, intersects_or_adjacent, ==, !=
Related(t, a, b) ==
    LET inter == Less(t, a.s, b.e) /\ Less(t, b.s, a.e)  adj == Eq(t, a.e, b.s) \/ Eq(t, b.e, a.s) IN
    <<B(Le(t, a.s, b.s) /\ Le(t, b.e, a.e)), B(adj), B(inter), B(inter \/ adj), B(Eq(t, a.s, b.s) /\ Eq(t, a.e, b.e)), B(~(Eq(t, a.s, b.s) /\ Eq(t, a.e, b.e)))>>
Rejects(st, e) ==
    LET o == e.op  n == Next1(st, o)  t == n.ty IN
    IF o[1] \in {"crash", "hang"} THEN Reject(o[1])
    ELSE IF o[1] = "fin" THEN {}
    ELSE IF o[1] = "has" THEN LET r == n.r[o[2]]  x == <<o[3], o[4]>> IN
        If(e.out # <<B(Le(t, r.s, x) /\ Less(t, x, r.e))>>, Reject("contains(value) differs"))
    ELSE IF o[1] = "rel" THEN LET a == n.r[1]  b == n.r[2] IN
        IF Empty(t, a) \/ Empty(t, b) THEN If(SubSeq(e.out, 5, 6) # SubSeq(Related(t, a, b), 5, 6), Reject("equality differs"))
        ELSE If(e.out # Related(t, a, b), Reject("containment, adjacency, intersection or equality differs"))
    ELSE IF o[1] = "walk" THEN  \* iterating: number of steps, and whether every value was visited in order, both ways, by all iterator operations
        LET r == n.r[o[2]] IN If(e.out # <<Sub(t, r.e, r.s)[2], 1>>, Reject("iteration differs"))
    ELSE If(~(Len(e.out) = 24 /\ See(t, n.r[1], SubSeq(e.out, 1, 12)) /\ See(t, n.r[2], SubSeq(e.out, 13, 24))), Reject("bounds, size or emptiness differ"))

Nums(t) == IF Pointer(t) THEN {<<0, 0>>, <<0, 1>>, <<0, 3>>, <<0, 7>>}
           ELSE IF Signed(t) THEN {<<-1, 0>>, <<-1, 2>>, <<0, -3>>, <<0, 0>>, <<0, 5>>, <<1, -2>>, <<1, -1>>}
           ELSE {<<0, 0>>, <<0, 2>>, <<1, -1>>, <<1, 0>>, <<1, 3>>, <<2, -2>>, <<2, -1>>}
Walkable(st, i) == LET d == Sub(st.ty, st.r[i].e, st.r[i].s) IN d[1] = 0 /\ d[2] <= 70000
AllOps(st) ==
    (IF st = Init0 THEN {<<"type", t>> : t \in Types} ELSE {})
    \cup {<<"set", 1, x[1], x[2], y[1], y[2]>> : x \in Nums(st.ty), y \in Nums(st.ty)}
    \cup {<<"set", 2, x[1], x[2], y[1], y[2]>> : x \in Nums(st.ty), y \in Nums(st.ty)}
    \cup {<<"upto", 1, x[1], x[2]>> : x \in {z \in Nums(st.ty) : Le(st.ty, <<0, 0>>, z)}}
    \cup {<<"rel">>, <<"copy", 2, 1>>, <<"join", 1, 2>>, <<"join", 2, 2>>}
    \cup {<<"has", 1, x[1], x[2]>> : x \in Nums(st.ty)}
    \cup {<<"walk", i>> : i \in {k \in 1..2 : Walkable(st, k)}}
Valid(st, o) == IF o[1] = "set" THEN Le(st.ty, <<o[3], o[4]>>, <<o[5], o[6]>>) ELSE TRUE
GenOps(st) == {o \in AllOps(st) : Valid(st, o)}
GenBound(st) == TRUE
=============================================================================
