------------------------------- MODULE FixedStr -------------------------------
(* muu::fixed_string<C, L>: a string whose length is part of its type. A fixed string is modelled as the sequence of its L
   characters. State: the register the operations work on. Clause T05.
   Characters are observed as unsigned units; `char` and `char8_t` compare as unsigned bytes, like std::char_traits.  *)
EXTENDS Integers, Sequences, TLC
Reject(why) == {<<"T05", why>>}
If(p, set) == IF p THEN set ELSE {}
Lengths == {0, 1, 2, 3, 5, 8}
Encs == 0..3                                  \* char, char16_t, char32_t, wchar_t
Units(e) == IF e = 0 THEN {0, 65, 97, 127, 128, 255} ELSE {0, 65, 255, 256, 55296, 65535}
Init0 == [enc |-> 0, v |-> <<>>]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Rest(o, k) == SubSeq(o, k, Len(o))
\* the source is cut to the length or filled up with NULs
Fit(u, L) == [k \in 1..L |-> IF k <= Len(u) THEN u[k] ELSE 0]
Rev(u) == [k \in 1..Len(u) |-> u[Len(u) + 1 - k]]
\* three-way lexicographic comparison of unsigned units; a proper prefix is less
RECURSIVE Cmp(_, _)
Cmp(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
             ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE Cmp(Tail(a), Tail(b))
B(p) == IF p THEN 1 ELSE 0
\* compare, ==, !=, <, <=, >, >=
Rel(a, b) == LET c == Cmp(a, b) IN <<c, B(c = 0), B(c # 0), B(c < 0), B(c <= 0), B(c > 0), B(c >= 0)>>
\* Negative indices count from the end; everything is clamped to the string.
Index(i, L) == IF i >= 0 THEN Min(i, L) ELSE Max(0, L + i)
All == 99                                      \* stands for "to the end"
Substr(v, a, n) == LET s == Index(a, Len(v)) IN SubSeq(v, s + 1, Min(s + n, Len(v)))
Slice(v, a, b) == SubSeq(v, Index(a, Len(v)) + 1, IF b = All THEN Len(v) ELSE Index(b, Len(v)))
Next1(s, o) ==
    CASE o[1] = "enc"   -> [enc |-> o[2], v |-> <<>>]
      [] o[1] = "make"  -> [s EXCEPT !.v = Fit(Rest(o, 4), o[3])]             \* how, length, units of the source
      [] o[1] = "fill"  -> [s EXCEPT !.v = [k \in 1..o[2] |-> o[3]]]
      [] o[1] = "conv"  -> [s EXCEPT !.v = Fit(s.v, o[2])]                    \* to another length
      [] o[1] = "cat"   -> [s EXCEPT !.v = @ \o Rest(o, 2)]
      [] o[1] = "catc"  -> [s EXCEPT !.v = Append(@, o[2])]
      [] o[1] = "ccat"  -> [s EXCEPT !.v = <<o[2]>> \o @]
      [] o[1] = "set"   -> [s EXCEPT !.v[o[2] + 1] = o[3]]                    \* through operator[], get<>, iterator, front/back
      [] o[1] = "sub"   -> [s EXCEPT !.v = Substr(@, o[2], o[3])]
      [] o[1] = "slice" -> [s EXCEPT !.v = Slice(@, o[2], o[3])]
      [] OTHER -> s
Step(s, e) == Next1(s, e.op)
\* observation of the register: all the ways to read it agree
Read(v) == <<Len(v), B(v = <<>>), B(v # <<>>), 1>> \o v \o <<0>>
Rejects(s, e) ==
    LET o == e.op  t == Next1(s, o) IN
    IF o[1] \in {"crash", "hang"} THEN Reject(o[1])
    ELSE IF o[1] = "rel" THEN LET b == Rest(o, 2) IN If(e.out # Rel(s.v, b) \o Rel(b, s.v), Reject("comparison differs"))
    ELSE IF o[1] = "self" THEN If(e.out # Rel(s.v, s.v) \o Rel(s.v, s.v), Reject("comparison with itself differs"))
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(e.out # Read(t.v), Reject("characters or length differ"))

Small(e) == {<<>>} \cup {<<x>> : x \in Units(e)} \cup {<<x, y>> : x, y \in Units(e)}
GenOps(s) ==
    (IF s.v = <<>> THEN {<<"enc", e>> : e \in Encs \ {s.enc}} ELSE {})
    \cup {<<"make", h, L>> \o u : h \in 0..1, L \in {0, 1, 2, 3}, u \in {<<65, 128>>, <<>>, <<97>>, <<255, 0, 66>>, <<65, 66, 67, 68, 69>>}}
    \cup {<<"fill", L, 66>> : L \in {0, 2}} \cup {<<"conv", L>> : L \in {0, 1, 3, 5}}
    \cup (IF Len(s.v) <= 3 THEN {<<"cat">> \o u : u \in {<<>>, <<255>>, <<66, 67>>}} \cup {<<"catc", 200>>, <<"ccat", 129>>} ELSE {})
    \cup {<<"set", i - 1, 90>> : i \in 1..Min(2, Len(s.v))}
    \cup {<<"sub", a, n>> : a \in {-9, -2, -1, 0, 1, 2, 4}, n \in {0, 1, 3, All}}
    \cup {<<"slice", a, b>> : a \in {-9, -2, -1, 0, 1, 4}, b \in {-9, -1, 0, 1, 2, 4, All}}
    \cup {<<"rel">> \o u : u \in Small(s.enc)} \cup {<<"self">>}
GenBound(s) == Len(s.v) <= 4
=============================================================================
