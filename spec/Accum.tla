--------------------------------- MODULE Accum ---------------------------------
(* muu::accumulator: minimum, maximum, sum and number of the samples added so far. State: the kind of sample in use and two
   accumulators, each the number of samples and, per component of a sample, [min, max, sum]. Clause N01.
   Samples are integers, so the sums of floating-point accumulators are known exactly: compensated summation of integers
   loses nothing until the final rounding of the sum to the sample's precision.                                      *)
EXTENDS Integers, Sequences, TLC
Reject(why) == {<<"N01", why>>}
If(p, set) == IF p THEN set ELSE {}
\* kinds: 0 int8, 1 uint16, 2 int32, 3 int64, 4 float, 5 double, 6 half, 7 vector<int,2>, 8 vector<float,3>, 9 uint32, 10 long double, 11 vector<int16,5>
Kinds == 0..11
Dim(k) == CASE k = 7 -> 2 [] k = 8 -> 3 [] k = 11 -> 5 [] OTHER -> 1
Prec(k) == CASE k \in {4, 8} -> 24 [] k = 6 -> 11 [] OTHER -> 31
Zero == [min |-> 0, max |-> 0, sum |-> 0]
Empty(k) == [n |-> 0, c |-> [d \in 1..Dim(k) |-> Zero]]
Init0 == [kind |-> 2, r |-> <<Empty(2), Empty(2)>>]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
One(v) == [n |-> 1, c |-> [d \in 1..Len(v) |-> [min |-> v[d], max |-> v[d], sum |-> v[d]]]]
Merge(a, b) == IF b.n = 0 THEN a ELSE IF a.n = 0 THEN b
               ELSE [n |-> a.n + b.n, c |-> [d \in 1..Len(a.c) |-> [min |-> Min(a.c[d].min, b.c[d].min), max |-> Max(a.c[d].max, b.c[d].max),
                                                                   sum |-> a.c[d].sum + b.c[d].sum]]]
RECURSIVE AddAll(_, _, _)
AddAll(a, vs, D) == IF vs = <<>> THEN a ELSE AddAll(Merge(a, One(SubSeq(vs, 1, D))), SubSeq(vs, D + 1, Len(vs)), D)
Rest(o, k) == SubSeq(o, k, Len(o))
Next1(s, o) ==
    CASE o[1] = "kind" -> [kind |-> o[2], r |-> <<Empty(o[2]), Empty(o[2])>>]
      [] o[1] = "new"  -> [s EXCEPT !.r[o[2]] = Empty(s.kind)]
      [] o[1] \in {"init1", "initr"} -> [s EXCEPT !.r[o[2]] = AddAll(Empty(s.kind), Rest(o, 3), Dim(s.kind))]
      [] o[1] \in {"add", "call", "addr"} -> [s EXCEPT !.r[o[2]] = AddAll(@, Rest(o, 3), Dim(s.kind))]
      [] o[1] \in {"merge", "callm"} -> [s EXCEPT !.r[o[2]] = Merge(s.r[o[2]], s.r[o[3]])]
      [] o[1] = "copy" -> [s EXCEPT !.r[o[2]] = s.r[o[3]]]
      [] OTHER -> s
Step(s, e) == Next1(s, e.op)
RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2(x \div 2)
SumOk(out, x, p) == LET l == Log2(Abs(x)) IN IF l < p THEN out = x ELSE 2 * Abs(out - x) <= 2 ^ (l - p + 1)
\* per accumulator: number, empty(), then min, max, sum of every component
AccOk(a, o, p) == /\ o[1] = a.n /\ o[2] = (IF a.n = 0 THEN 1 ELSE 0)
                  /\ \A d \in 1..Len(a.c) : /\ o[3 * d] = a.c[d].min /\ o[3 * d + 1] = a.c[d].max /\ SumOk(o[3 * d + 2], a.c[d].sum, p)
Rejects(s, e) ==
    LET o == e.op  t == Next1(s, o)  w == 2 + 3 * Dim(t.kind) IN
    IF o[1] \in {"crash", "hang"} THEN Reject(o[1])
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(~(Len(e.out) = 2 * w /\ AccOk(t.r[1], SubSeq(e.out, 1, w), Prec(t.kind)) /\ AccOk(t.r[2], SubSeq(e.out, w + 1, 2 * w), Prec(t.kind))),
            Reject("count, minimum, maximum or sum differs"))
Sample(k, x) == [d \in 1..Dim(k) |-> IF d = 1 THEN x ELSE IF k \in {1, 9} THEN x + d ELSE IF Abs(x) > 1000 THEN -2 * x ELSE d - 2 * x]
Vals(k) == IF k \in {1, 9} THEN {0, 3, 1000} ELSE IF k \in {4, 8} THEN {-33554432, 33554432, 1, -5} ELSE {-7, 0, 100}
GenOps(s) ==
    (IF s.r = <<Empty(s.kind), Empty(s.kind)>> THEN {<<"kind", k>> : k \in Kinds \ {s.kind}} ELSE {})
    \cup {<<op, 1>> \o Sample(s.kind, x) : op \in {"add", "init1", "call"}, x \in Vals(s.kind)}
    \cup {<<"add", 2>> \o Sample(s.kind, x) : x \in Vals(s.kind)}
    \cup {<<op, 2>> \o Sample(s.kind, x) \o Sample(s.kind, y) : op \in {"addr", "initr"}, x \in Vals(s.kind), y \in {1, 2}}
    \cup {<<"addr", 1>>, <<"new", 1>>, <<"copy", 2, 1>>}
    \cup {<<op, x[1], x[2]>> : op \in {"merge", "callm"}, x \in {<<1, 2>>, <<2, 1>>, <<1, 1>>}}
GenBound(s) == \A i \in 1..2 : s.r[i].n <= 6 /\ \A d \in 1..Dim(s.kind) : Abs(s.r[i].c[d].sum) < 500000000
=============================================================================
