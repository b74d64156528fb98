-------------------------------- MODULE Span --------------------------------
(* span, static_array and the iterator helpers. The state is an array of twelve cells and three spans over it, each the offset
   of its first element (-1: no elements ever, a null pointer) and its length. Every span operation is arithmetic on those two
   numbers; writing through a span writes the cells. Clause S01.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
N == 12
SizeOf == <<1, 2, 4, 8, 6>>
Null == [o |-> -1, n |-> 0]
Fresh == [i \in 1..N |-> i - 1]
Init0 == [k |-> 3, c |-> Fresh, s |-> [i \in 0..2 |-> Null]]
At(s, v) == IF v.n = 0 THEN <<>> ELSE SubSeq(s.c, v.o + 1, v.o + v.n)
Rev(q) == [i \in 1..Len(q) |-> q[(Len(q) + 1) - i]]
Whole == [o |-> 0, n |-> N]
Built(how, o, n) == IF how = 8 THEN Null ELSE IF how \in {5, 6, 7, 11, 14} THEN Whole ELSE [o |-> o, n |-> n]
Part(v, how, a, b) ==
    CASE how \in {1, 5} -> [o |-> v.o, n |-> a]
      [] how \in {2, 6} -> [o |-> IF v.o < 0 THEN v.o ELSE (v.o + v.n) - a, n |-> a]
      [] how \in {3, 7} -> [o |-> v.o + a, n |-> v.n - a]
      [] OTHER -> [o |-> v.o + a, n |-> b]
Written(s, v, how, i, x) ==
    IF v.n = 0 THEN s.c
    ELSE CASE how \in {1, 4, 6, 7} -> [s.c EXCEPT ![v.o + i + 1] = x]
           [] how = 2 -> [s.c EXCEPT ![v.o + 1] = x]
           [] how = 3 -> [s.c EXCEPT ![v.o + v.n] = x]
           [] how = 5 -> [s.c EXCEPT ![(v.o + v.n) - i] = x]
           [] how = 8 -> IF v.n <= 4 THEN [s.c EXCEPT ![v.o + i + 1] = x] ELSE s.c
           [] OTHER -> [j \in 1..N |-> IF j > v.o /\ j <= v.o + v.n THEN x ELSE s.c[j]]
Step1(s, o) ==
    CASE o[1] = "kind" -> [Init0 EXCEPT !.k = o[2]]
      [] o[1] = "make" -> [s EXCEPT !.s[o[2]] = Built(o[3], o[4], o[5])]
      [] o[1] = "cut" -> [s EXCEPT !.s[o[2]] = Part(s.s[o[3]], o[4] % 10, o[5], o[6])]
      [] o[1] = "put" -> [s EXCEPT !.c = Written(s, s.s[o[2]], o[3], o[4], o[5])]
      [] o[1] = "copy" -> IF o[4] = 5 THEN [s EXCEPT !.s[o[2]] = s.s[o[3]], !.s[o[3]] = s.s[o[2]]] ELSE [s EXCEPT !.s[o[2]] = s.s[o[3]]]
      [] OTHER -> s
Step(s, e) == Step1(s, e.op)
Take(s, v) ==
    LET z == SizeOf[s.k]  q == At(s, v)  n == v.n  o == v.o  bo == IF o < 0 THEN -1 ELSE o * z IN
    <<o, n, B(n = 0), n>> \o q \o Rev(q) \o q \o (IF n > 0 THEN <<q[1], q[n]>> ELSE <<>>)
    \o <<o, n, o, n, n, n, n, bo, n * z, 1, n * z>>
    \o (IF o >= 0 /\ bo % 16 = 0 THEN <<o, n, o, n \div 2, o, n>> ELSE <<>>)
    \o (IF n \in 1..4 THEN <<o, n, n, 0, 1, n * z, n * z, o, n, q[n], q[1]>> ELSE <<>>)
CtOut == <<12345, 12345, 12, 45, 234, 45, 123, 2345, 23, 345, 54321, 1, 5, 3, 5, 5>>
DistOut(n) == <<n, n, n, 0, n, 0, N, 0, N, 0, n, 0 - n>>
Arrays(big) == <<<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 2, 3>>, <<1, 3>>, <<1, 2, 2>>, <<big>>, <<big, 5, 5>>, <<1, 1>>, <<2, 1, 3, 4>>>>
Big(t) == IF t = 1 THEN 255 ELSE -1
\* lexicographic
RECURSIVE Before(_, _)
Before(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
                ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y) ELSE Before(Tail(x), Tail(y))
Rel(x, y) == <<B(x = y), B(x # y), B(Before(x, y)), B(x = y \/ Before(x, y)), B(Before(y, x)), B(x = y \/ Before(y, x))>>
Sarr(x) == <<Len(x), B(x = <<>>), Len(x), 1>> \o x \o (IF x = <<>> THEN <<>> ELSE <<x[1], x[Len(x)], x[(Len(x) \div 2) + 1], x[Len(x)]>>)
Out(s, o) ==
    CASE o[1] = "take" -> Take(s, s.s[o[2]])
      [] o[1] = "ct" -> CtOut
      [] o[1] = "dist" -> DistOut(o[2])
      [] o[1] = "sarr" -> Sarr(Arrays(Big(o[3]))[o[2] + 1])
      [] o[1] = "srel" -> Rel(Arrays(Big(o[4]))[o[2] + 1], Arrays(Big(o[4]))[o[3] + 1])
      [] OTHER -> <<>>
Rejects(s, e) ==
    LET o == e.op IN
    IF o[1] \in {"crash", "hang"} THEN {<<"S01", o[1]>>}
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(e.out # Out(s, o), {<<"S01", o[1]>>})
\* what the operations promise of each other, for every span over the cells
Views == {[o |-> x, n |-> y] : x \in 0..N, y \in 0..N}
ASSUME \A v \in {u \in Views : u.o + u.n <= N} : \A a \in 0..v.n :
    /\ Part(v, 1, a, 0).o = v.o /\ Part(v, 2, v.n - a, 0).o = v.o + a /\ Part(v, 1, a, 0).n + Part(v, 2, v.n - a, 0).n = v.n
    /\ Part(v, 3, a, 0) = Part(v, 2, v.n - a, 0)
    /\ \A b \in 0..(v.n - a) : Part(v, 4, a, b) = Part(Part(v, 3, a, 0), 1, b, 0)
Makes == {<<1, 0, 5>>, <<2, 3, 4>>, <<3, 12, 0>>, <<4, 2, 5>>, <<5, 0, 12>>, <<6, 0, 12>>, <<7, 0, 12>>, <<8, -1, 0>>, <<9, 4, 3>>, <<9, 4, 0>>, <<10, 8, 4>>,
          <<11, 0, 12>>, <<12, 1, 9>>, <<13, 7, 2>>, <<14, 0, 12>>}
GenOps(s) ==
    IF s = Init0 THEN {<<"kind", k>> : k \in 1..5} \cup {<<"make", 0, d[1], d[2], d[3]>> : d \in Makes} \cup {<<"ct">>} \cup {<<"dist", q>> : q \in {0, 1, 5, 12}}
                      \cup {<<"sarr", i, t>> : i \in 0..11, t \in {0, 1}} \cup {<<"srel", i, j, t>> : i \in 0..11, j \in 0..11, t \in {0, 1}}
    ELSE IF s.s[0] = Null /\ s.s[1] = Null THEN {<<"make", 0, d[1], d[2], d[3]>> : d \in Makes}
    ELSE {<<"take", 0>>, <<"take", 1>>, <<"copy", 1, 0, 1>>, <<"copy", 1, 0, 4>>, <<"copy", 0, 1, 5>>}
         \cup LET v == s.s[0]  m == IF v.n < 4 THEN v.n ELSE 4 IN
              {<<"cut", 1, 0, h, a, 0>> : h \in {1, 2}, a \in {0, v.n \div 2, v.n}}
              \cup {<<"cut", 1, 0, h, a, 0>> : h \in {5, 6, 15, 16}, a \in {0, m}}
              \cup (IF v.n = 0 THEN {} ELSE
                    {<<"cut", 1, 0, h, a, 0>> : h \in {3, 13}, a \in {0, v.n - 1}}
                    \cup {<<"cut", 1, 0, h, IF m = 4 /\ v.n = 4 THEN 3 ELSE m - B(v.n <= 3), 0>> : h \in {7, 17}}
                    \cup {<<"cut", 1, 0, h, v.n \div 2, 1>> : h \in {4, 14}} \cup {<<"cut", 0, 0, 4, 0, v.n - 1>>}
                    \cup {<<"cut", 1, 0, h, IF v.n > 1 THEN 1 ELSE 0, 1>> : h \in {8, 18}}
                    \cup {<<"put", 0, h, IF h = 8 THEN 0 ELSE v.n - 1, 40 + h>> : h \in 1..9})
GenBound(s) == TRUE
=============================================================================
