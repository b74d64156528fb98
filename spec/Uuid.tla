---------------------------------- MODULE Uuid ----------------------------------
(* muu::uuid: 16 bytes, most significant first, their fields, order, text and generation (RFC 4122). State: two uuids.
   Clause U01 (text) and U02 (everything else).                                                                       *)
EXTENDS Utf, Sha1, TLC
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
Rest(o, k) == SubSeq(o, k, Len(o))
Nil == [k \in 1..16 |-> 0]
Init0 == <<Nil, Nil>>
\* namespaces: 1 and 2 are the uuids, 3 dns, 4 url, 5 oid, 6 x500
NameSpace(s, n) == IF n <= 2 THEN s[n]
               ELSE <<107, 167, 184, CASE n = 3 -> 16 [] n = 4 -> 17 [] n = 5 -> 18 [] OTHER -> 20, 157, 173, 17, 209, 128, 180, 0, 192, 79, 212, 48, 200>>
Stamp(b, version) == [k \in 1..16 |-> IF k = 7 THEN 16 * version + (b[k] % 16) ELSE IF k = 9 THEN 128 + (b[k] % 64) ELSE b[k]]
Named(ns, name) == Stamp(SHA1(ns \o name), 5)

\* the text of a uuid: 32 hexadecimal digits, white space between bytes or around, hyphens between bytes, braces around the whole
Digit(c) == CASE c >= 48 /\ c <= 57 -> c - 48 [] c >= 65 /\ c <= 70 -> c - 55 [] c >= 97 /\ c <= 102 -> c - 87 [] OTHER -> -1
Blank(c) == c \in (9..13) \cup {32}
RECURSIVE Parse(_, _, _, _)
\* st: "open" before the first digit, "in" among the digits, "end" after the last; br: inside braces; d: the digits so far
Parse(c, st, br, d) ==
    IF c = <<>> THEN [ok |-> st = "end" /\ ~br, d |-> d]
    ELSE LET h == Head(c)  no == [ok |-> FALSE, d |-> d] IN
         CASE st = "open" /\ h = 123 /\ ~br -> Parse(Tail(c), st, TRUE, d)
           [] st = "open" /\ Blank(h) -> Parse(Tail(c), st, br, d)
           [] st \in {"open", "in"} /\ Digit(h) >= 0 -> Parse(Tail(c), IF Len(d) = 31 THEN "end" ELSE "in", br, Append(d, Digit(h)))
           [] st = "in" /\ (Blank(h) \/ h = 45) /\ Len(d) % 2 = 0 -> Parse(Tail(c), st, br, d)
           [] st = "end" /\ h = 125 /\ br -> Parse(Tail(c), st, FALSE, d)
           [] st = "end" /\ Blank(h) -> Parse(Tail(c), st, br, d)
           [] OTHER -> no
W(enc) == CASE enc \in {1, 3} -> 1 [] enc = 4 -> 2 [] OTHER -> 4
Parsed(o) == LET it == Items(Rest(o, 4), W(o[3])) IN IF WellFormed(it) THEN Parse(Points(it), "open", FALSE, <<>>) ELSE [ok |-> FALSE, d |-> <<>>]
Value16(d) == [k \in 1..16 |-> d[2 * k - 1] * 16 + d[2 * k]]
Hex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE Text(_, _)
Text(b, k) == IF k > 16 THEN <<>> ELSE (IF k \in {5, 7, 9, 11} THEN <<45>> ELSE <<>>) \o <<Hex(b[k] \div 16), Hex(b[k] % 16)>> \o Text(b, k + 1)

Step(s, e) ==
    LET o == e.op  r == IF Len(o) > 1 THEN o[2] ELSE 1 IN
    CASE o[1] \in {"bytes", "int"} -> [s EXCEPT ![r] = Rest(o, 3)]
      [] o[1] = "fields" -> [s EXCEPT ![r] = SubSeq(o, 4, 13) \o SubSeq(o, 16, 21)]     \* the node has 64 bits of which 48 count
      [] o[1] = "nil"    -> [s EXCEPT ![r] = Nil]
      [] o[1] = "copy"   -> [s EXCEPT ![r] = s[o[3]]]
      [] o[1] = "named"  -> [s EXCEPT ![r] = Named(NameSpace(s, o[3]), Rest(o, 5))]
      [] o[1] = "parse"  -> LET p == Parsed(o) IN IF p.ok THEN [s EXCEPT ![r] = Value16(p.d)] ELSE s
      [] o[1] = "gen"    -> IF Len(e.out) < 17 THEN s ELSE [s EXCEPT ![r] = SubSeq(e.out, 2, 17)]
      [] OTHER -> s
RECURSIVE Less(_, _, _)
Less(a, b, k) == k <= 16 /\ (a[k] < b[k] \/ (a[k] = b[k] /\ Less(a, b, k + 1)))
\* 0 none, 1 standard, 2 NCS, 3 Microsoft, 4 future
Variant(b) == LET v == b[9] \div 32 IN CASE v = 0 -> 0 [] v <= 3 -> 2 [] v <= 5 -> 1 [] v = 6 -> 3 [] OTHER -> 4
Version(b) == LET v == b[7] \div 16 IN IF v > 5 THEN 15 ELSE v
\* bytes; variant, version; the fields, most significant bytes first, the node with its two zero bytes; bool; as an integer
Facts(b) == b \o <<Variant(b), Version(b)>> \o SubSeq(b, 1, 10) \o <<0, 0>> \o SubSeq(b, 11, 16) \o <<B(b # Nil)>> \o b
Rel(a, b) == LET l == Less(a, b, 1)  g == Less(b, a, 1) IN
    <<B(a = b), B(a # b), B(l), B(~g), B(g), B(~l), IF l THEN -1 ELSE IF g THEN 1 ELSE 0>>
Flip(b, i) == [k \in 1..16 |-> IF k = i \div 8 + 1 THEN LET p == 2 ^ (i % 8) IN IF (b[k] \div p) % 2 = 1 THEN b[k] - p ELSE b[k] + p ELSE b[k]]
Observed(t) == Facts(t[1]) \o Facts(t[2]) \o Rel(t[1], t[2])
Rejects(s, e) ==
    LET o == e.op  t == Step(s, e)
        main == IF o[1] = "gen" THEN 18 ELSE IF o[1] = "parse" THEN 2 ELSE IF o[1] = "flip" THEN 2 ELSE IF o[1] = "print" THEN 38 ELSE 1
    IN
    IF o[1] \in {"crash", "hang"} THEN {<<IF e.of[1] \in {"parse", "print"} THEN "U01" ELSE "U02", o[1]>>}
    ELSE IF o[1] = "fin" THEN {}
    ELSE IF Len(e.out) <= main THEN {<<"U01", "malformed observation">>, <<"U02", "malformed observation">>}
    ELSE If(o[1] = "parse" /\ (e.out[2] # B(Parsed(o).ok) \/ SubSeq(e.out, 3 + 53 * (o[2] - 1), 18 + 53 * (o[2] - 1)) # t[o[2]]), {<<"U01", "parsed value differs">>})
         \cup If(o[1] = "print" /\ SubSeq(e.out, 2, 38) # Text(s[o[2]], 1) \o <<1>>, {<<"U01", "printed text differs">>})
         \cup If(o[1] = "gen" /\ (Version(t[o[2]]) # 4 \/ Variant(t[o[2]]) # 1 \/ t[o[2]] \in {s[1], s[2]}), {<<"U02", "generated uuid is not a new random one">>})
         \cup If(o[1] = "flip" /\ e.out[2] # 0, {<<"U02", "hash does not depend on a bit">>})   \* op: register, bit
         \* e.out[1]: the hashes of the two uuids are equal
         \cup If(t[1] = t[2] /\ e.out[1] # 1, {<<"U02", "equal uuids have different hashes">>})
         \cup If(Rest(e.out, main + 1) # Observed(t), {<<"U02", "fields, order or conversions differ">>})

Fixed == <<1, 35, 69, 103, 137, 171, 205, 239, 254, 220, 186, 152, 118, 84, 50, 16>>
U0 == {Fixed, [k \in 1..16 |-> 255], [k \in 1..16 |-> k * 15]}
Hexes == [k \in 1..32 |-> IF k % 3 = 0 THEN 97 + (k % 6) ELSE IF k % 3 = 1 THEN 48 + (k % 10) ELSE 65 + (k % 6)]
Ins(u, at, x) == SubSeq(u, 1, at) \o x \o Rest(u, at + 1)
Forms == {Hexes, SubSeq(Hexes, 1, 31), Append(Hexes, 48), <<123>> \o Hexes \o <<125>>, <<123>> \o Hexes, Append(Hexes, 125), <<123, 123>> \o Hexes \o <<125>>,
          <<123>> \o Hexes \o <<125, 125>>, <<32, 123, 9>> \o Hexes \o <<10, 125, 13>>, Append(Hexes, 45), <<45>> \o Hexes, <<>>}
         \cup {Ins(Hexes, p, x) : p \in 0..32, x \in {<<45>>, <<32>>, <<45, 45>>, <<12>>, <<103>>, <<0>>, <<47>>, <<58>>, <<64>>, <<71>>, <<96>>, <<123>>, <<125>>}}
         \cup {Ins(Ins(Ins(Ins(Hexes, 20, <<45>>), 16, <<45>>), 12, <<45>>), 8, <<45>>)}
         \cup {[Hexes EXCEPT ![p] = c] : p \in {1, 2, 31, 32}, c \in {47, 58, 64, 70, 71, 96, 102, 103, 45, 32}}
\* one unit of the text replaced by units beyond ASCII, or a byte order mark before it
Odd(enc) == CASE W(enc) = 1 -> {<<195>>, <<255>>, <<195, 169>>, <<128>>, <<239, 188, 145>>} [] W(enc) = 2 -> {<<55296>>, <<65297>>, <<304>>} [] OTHER -> {<<65297>>, <<1114112>>, <<304>>, <<55296>>}
GenOps(s) ==
    {<<"bytes", r>> \o b : r \in 1..2, b \in U0 \cup {[Fixed EXCEPT ![k] = x] : k \in 1..16, x \in {0, 128}}}
    \cup {<<"int", 1>> \o b : b \in U0} \cup {<<"nil", 1>>, <<"nil", 2>>, <<"copy", 2, 1>>, <<"gen", 1>>, <<"print", 1>>, <<"print", 2>>}
    \cup {<<"fields", r, f, 1, 35, 69, 103, 137, 171, 205, 239, 254, 220, x, 200, 118, 84, 50, 16, 7, 9>> : r \in 1..2, f \in 0..1, x \in {0, 255}}
    \cup {<<"bytes", 1>> \o [Fixed EXCEPT ![k] = x * 16 + 5] : k \in {7, 9}, x \in 0..15}
    \cup {<<"flip", 1, i>> : i \in 0..127}
    \cup {<<"named", 1, n, h>> \o b : n \in 1..6, h \in 0..2, b \in {<<>>, <<97>>, <<0, 255, 98>>}}
    \cup {<<"parse", 1, enc>> \o t : enc \in 1..5, t \in Forms}
    \cup UNION {{<<"parse", 2, enc>> \o Ins(Hexes, p, x) : p \in {0, 1, 16, 32}, x \in Odd(enc)} : enc \in 1..5}
    \cup UNION {{<<"parse", 2, enc>> \o SubSeq(Hexes, 1, p - 1) \o x \o Rest(Hexes, p + 1) : p \in {1, 2, 16, 32}, x \in Odd(enc)} : enc \in 1..5}
GenBound(s) == TRUE
===============================================================================
