-------------------------------- MODULE BitOps --------------------------------
(* The bit operations: countl/countr, popcount, has_single_bit, bit_width, bit_floor, bit_ceil, bit_fill, byte_reverse,
   byte_select, swizzle, bit_pack, apply_alignment. A value is the sequence of its bytes, least significant first; nothing
   here depends on machine arithmetic. There is no state between operations. Clause N03.
   ct = 1 observes the result the compiler computed in a constant expression, 0 the one computed at run time.          *)
EXTENDS Integers, Sequences, TLC
Reject(why) == {<<"N03", why>>}
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
\* types: 0 u8, 1 u16, 2 u32, 3 unsigned long, 4 unsigned long long, 5 u128, 6 enum : u8, 7 enum : u32, 8 enum : u64,
\* 9 char16_t, 10 char32_t; signed: 11 i8, 12 i16, 13 i32, 14 i64, 15 i128, 16 enum : i32, 17 char, 18 enum : i8
Size == <<1, 2, 4, 8, 8, 16, 1, 4, 8, 2, 4, 1, 2, 4, 8, 16, 4, 1, 1>>
Unsigned == 0..10
Rest(o, k) == SubSeq(o, k, Len(o))
Init0 == 0
Step(s, e) == s
Pow(n) == 2 ^ n
Bit(v, i) == ((v[(i \div 8) + 1] \div Pow(i % 8)) % 2)          \* bit i, 0 is the lowest
Bits(v) == Len(v) * 8
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Ones(v) == {i \in 0..Bits(v) - 1 : Bit(v, i) = 1}
Zeros(v) == {i \in 0..Bits(v) - 1 : Bit(v, i) = 0}
Lead(v, S) == IF S = {} THEN Bits(v) ELSE Bits(v) - 1 - Max(S)  \* how many bits above the highest of S
Trail(v, S) == IF S = {} THEN Bits(v) ELSE Min(S)
RECURSIVE SumPow(_)
SumPow(S) == IF S = {} THEN 0 ELSE LET x == Max(S) IN Pow(x) + SumPow(S \ {x})
FromBits(n, S) == [k \in 1..n |-> SumPow({j \in 0..7 : (k - 1) * 8 + j \in S})]    \* n bytes with these bits set
Small(n, x) == [k \in 1..n |-> IF k = 1 THEN x % 256 ELSE IF k = 2 THEN x \div 256 ELSE 0]
Cardinal(S) == LET RECURSIVE F(_)
                   F(T) == IF T = {} THEN 0 ELSE 1 + F(T \ {Max(T)})
               IN F(S)
Single(v) == \E i \in Ones(v) : Ones(v) = {i}
CeilFits(v) == Bit(v, Bits(v) - 1) = 0 \/ Single(v)
Count(v) == <<Lead(v, Ones(v)), Lead(v, Zeros(v)), Trail(v, Ones(v)), Trail(v, Zeros(v)), Cardinal(Ones(v)), B(Single(v))>>
Width(v) == Small(Len(v), IF Ones(v) = {} THEN 0 ELSE Max(Ones(v)) + 1)
Floor(v) == FromBits(Len(v), IF Ones(v) = {} THEN {} ELSE {Max(Ones(v))})
Ceil(v) == FromBits(Len(v), IF Ones(v) = {} THEN {0} ELSE IF Single(v) THEN Ones(v) ELSE {Max(Ones(v)) + 1})
Rev(v) == [k \in 1..Len(v) |-> v[Len(v) + 1 - k]]
Low(n, c) == FromBits(n, {i \in 0..(8 * n - 1) : i < c})
High(n, c) == FromBits(n, {i \in 0..(8 * n - 1) : i >= 8 * n - c})
Select(v, i) == IF i < Len(v) THEN v[i + 1] ELSE 0
\* the smallest power of two that is >= n bytes
RECURSIVE Up(_, _)
Up(n, p) == IF p >= n THEN p ELSE Up(n, 2 * p)
Pad(v, n) == [k \in 1..n |-> IF k <= Len(v) THEN v[k] ELSE 0]
\* swizzle: patterns give the source byte of every byte of the result, most significant first
Patterns == << <<0>>, <<0, 0>>, <<1, 0>>, <<0, 1>>, <<3, 2, 3>>, <<3, 2, 1, 0>>, <<0, 1, 2, 3>>, <<2>>, <<7, 0, 7>>, <<0, 1, 2, 3, 4, 5, 6, 7>>,
               <<6, 4, 2, 0, 1>>, <<15>>, <<15, 0, 15, 1, 8, 7, 2, 3, 12>>, <<0, 2, 4, 6, 8, 10, 12, 14, 1, 3, 5, 7, 9, 11, 13, 15>>, <<0, 0, 0>>, <<0, 0, 0, 0, 0>> >>
Fits(p, n) == \A k \in 1..Len(p) : p[k] < n
Swizzle(v, p) == LET n == Len(p) IN Pad([k \in 1..n |-> v[p[n + 1 - k] + 1]], Up(n, 1))
\* bit_pack: the first argument is the most significant; combinations: types of the arguments, size of the result
Packs == << <<<<0, 0>>, 2>>, <<<<1, 0>>, 4>>, <<<<0, 1>>, 4>>, <<<<0, 0, 0>>, 4>>, <<<<2, 2>>, 8>>, <<<<3, 3>>, 16>>, <<<<11, 11>>, 2>>, <<<<12, 0>>, 4>>,
            <<<<13, 13>>, 8>>, <<<<2, 1, 0, 11>>, 8>>, <<<<14, 14>>, 16>>, <<<<6, 6>>, 2>>, <<<<7, 16>>, 8>>, <<<<0, 0, 0, 0, 0, 0, 0, 0>>, 8>>,
            <<<<3, 2, 1, 0>>, 16>>, <<<<0, 0>>, 16>>, <<<<12, 12>>, 8>>, <<<<11, 0>>, 2>>, <<<<2, 2>>, 8>>, <<<<6, 0>>, 2>>, <<<<13, 7, 0>>, 16>>,
            <<<<1, 1, 1, 1>>, 8>>, <<<<18, 0>>, 4>>, <<<<17, 17, 17>>, 4>> >>
RECURSIVE PackLen(_, _)
PackLen(ts, k) == IF k = 0 THEN 0 ELSE Size[ts[k] + 1] + PackLen(ts, k - 1)
RECURSIVE Pack(_, _)
\* the arguments follow one another in v, each least significant byte first
Pack(ts, v) == IF ts = <<>> THEN <<>> ELSE LET n == Size[ts[1] + 1] IN Pack(Tail(ts), Rest(v, n + 1)) \o SubSeq(v, 1, n)
\* alignment: the next multiple of 2^a
RECURSIVE Inc(_, _)
Inc(v, i) == \* adds 2^i; the carry out of the top is lost
    IF i >= Bits(v) THEN v
    ELSE LET flip == FromBits(Len(v), (Ones(v) \cup {i}) \ (Ones(v) \cap {i})) IN IF Bit(v, i) = 0 THEN flip ELSE Inc(flip, i + 1)
Align(v, a) == LET low == {i \in Ones(v) : i < a}  cut == FromBits(Len(v), Ones(v) \ low) IN IF low = {} THEN v ELSE Inc(cut, a)
AlignFits(v, a) == LET low == {i \in Ones(v) : i < a} IN low = {} \/ ~(\A i \in a..(Bits(v) - 1) : Bit(v, i) = 1)
\* <<name, ct, type or combination, parameter, bytes...>>
Expected(o) ==
    LET v == Rest(o, 5) IN
    CASE o[1] = "count" -> Count(v)
      [] o[1] = "width" -> Width(v)
      [] o[1] = "floor" -> Floor(v)
      [] o[1] = "ceil"  -> Ceil(v)
      [] o[1] = "rev"   -> Rev(v)
      [] o[1] = "fill"  -> Low(Size[o[3] + 1], o[4]) \o High(Size[o[3] + 1], o[4])
      [] o[1] = "sel"   -> <<Select(v, o[4]), Select(v, o[4])>>       \* index given at run time; as a template argument
      [] o[1] = "swz"   -> Swizzle(v, Patterns[o[4] + 1])
      [] o[1] = "pack"  -> Pad(Pack(Packs[o[3] + 1][1], v), Packs[o[3] + 1][2])
      [] o[1] = "align" -> Align(v, o[4]) \o Align(v, o[4])           \* alignment given at run time; as a template argument
      [] OTHER -> <<>>
Rejects(s, e) ==
    LET o == e.op IN
    IF o[1] \in {"crash", "hang"} THEN Reject(o[1])
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(e.out # Expected(o), Reject("wrong result"))

\* values with one byte that differs from the others
Vals(n) == {[k \in 1..n |-> IF k = p THEN x ELSE b] : p \in 1..n, b \in {0, 255}, x \in {0, 1, 2, 3, 85, 127, 128, 200, 254, 255}}
ValsP(n) == {[k \in 1..n |-> IF k = p THEN x ELSE b] : p \in 1..n, b \in {0, 255}, x \in {1, 128, 254}}
           \cup {[k \in 1..n |-> k * 13]}
GenOps(s) ==
    UNION {{<<nm, 0, t, 0>> \o v : nm \in {"count", "width", "floor"}, v \in Vals(Size[t + 1])} : t \in Unsigned}
    \cup UNION {{<<"ceil", 0, t, 0>> \o v : v \in {w \in Vals(Size[t + 1]) : CeilFits(w)}} : t \in Unsigned}
    \cup UNION {{<<"rev", 0, t, 0>> \o v : v \in Vals(Size[t + 1])} : t \in {x \in Unsigned : Size[x + 1] > 1}}
    \cup UNION {{<<"fill", ct, t, c>> : ct \in {0, 1}, c \in {x \in 0..130 : x <= 8 * Size[t + 1] + 2}} : t \in Unsigned}
    \cup UNION {{<<"sel", 0, t, i>> \o v : i \in 0..(Size[t + 1] + 2), v \in ValsP(Size[t + 1])} : t \in 0..18}
    \cup UNION {{<<"swz", 0, t, p>> \o v : p \in {x \in 0..(Len(Patterns) - 1) : Fits(Patterns[x + 1], Size[t + 1])}, v \in ValsP(Size[t + 1])} : t \in 0..18}
    \cup UNION {{<<"pack", 0, c, 0>> \o v : v \in ValsP(PackLen(Packs[c + 1][1], Len(Packs[c + 1][1])))} : c \in 0..(Len(Packs) - 1)}
    \cup UNION {UNION {{<<"align", 0, t, a>> \o v : v \in {w \in ValsP(Size[t + 1]) : AlignFits(w, a)}} : a \in {x \in {0, 1, 3, 4, 6, 7, 12, 31} : x < 8 * Size[t + 1]}} : t \in Unsigned}
GenBound(s) == TRUE
=============================================================================
